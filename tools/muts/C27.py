F = 'src/arithmetic/modular_solver.rs'
BAD = [
    # undo the fixes
    (F, 'n.rem_euclid(prime)', 'n % prime'),
    (F, """                }
            }

            irow += 1;
        }
    }
""", """                }
            }
        }
        irow += 1;
    }
"""),
    (F, 'if r == 1 {', 'if r != 0 {'),
    (F, 'if t < 0 { t + modulus } else { t }', 't'),
    (F, 'if t < 0 { t + modulus } else { t }', 'if t < 0 { t + modulus } else { modulus - t }'),
    (F, '(t, t1) = (t1, t - q * t1);', '(t, t1) = (t1, t + q * t1);'),
    (F, 'let (mut t, mut t1) = (0, 1);', 'let (mut t, mut t1) = (1, 0);'),
    (F, '(irow..nrows).find(|&r| a[r][icol] != 0)', '(0..nrows).find(|&r| a[r][icol] != 0)'),
    (F, '(irow..nrows).find(|&r| a[r][icol] != 0)', '(irow..nrows).find(|&r| a[r][icol] == 1)'),
    (F, """            if r != irow {
                swap_rows(&mut a, irow, r);
            }""", """            if r > irow + 1 {
                swap_rows(&mut a, irow, r);
            }"""),
    (F, 'if i != irow && a[i][icol] != 0 {', 'if i > irow && a[i][icol] != 0 {'),
    (F, 'if i != irow && a[i][icol] != 0 {', 'if i != irow && a[i][icol] > 1 {'),
    (F, 'let f = a[i][icol];\n                    for j in icol..ncols {', 'for j in icol..ncols {\n                        let f = a[i][icol];'),
    (F, 'prime - (a[irow][j] * f) % prime + a[i][j]', '(a[irow][j] * f) % prime + a[i][j]'),
    (F, """            for j in icol..ncols {
                a[irow][j] = (a[irow][j] * f) % prime;""", """            for j in icol..nrows {
                a[irow][j] = (a[irow][j] * f) % prime;"""),
    (F, 'a[j] = row_i;', 'a[j] = row_i.into_iter().rev().collect();'),
    (F, 'row[n + i] = 1;', 'row[n + n - 1 - i] = 1;'),
    (F, 'for i in 0..n {\n        for j in 0..n {\n            if a[i][j] != (i == j) as i64 {', 'for i in 0..n {\n        for j in 0..=i {\n            if a[i][j] != (i == j) as i64 {'),
    (F, 'row[n..].to_vec()', 'row[..n].to_vec()'),
    (F, '.map(|i| (row[i] * b[i][j]) % prime)', '.map(|i| row[i] * b[i][j])'),
    (F, '.reduce(|p, q| (p + q) % prime)', '.reduce(|p, q| (p - q) % prime)'),
    (F, '(0..ncols_a).map(|i| row[i] * b[i][j]).sum()', '(0..ncols_b).map(|i| row[i] * b[i][j]).sum()'),
    (F, 'log_norms.iter().skip(1).sum()', 'log_norms.iter().skip(2).sum()'),
    (F, 'log_norms.iter().skip(1).sum()', 'log_norms.iter().take(a.len()).sum()'),
    (F, '.max_by(|a, b| a.total_cmp(b))', '.min_by(|a, b| a.total_cmp(b))'),
    (F, '.max_by(|a, b| a.total_cmp(b))', '.max_by(|a, b| b.total_cmp(a))'),
    (F, '(2.0 * (log_delta + golden_ratio.ln()) / (prime as f64).ln()).ceil() as u64', '((log_delta + golden_ratio.ln()) / (prime as f64).ln()).ceil() as u64'),
    (F, '(2.0 * (log_delta + golden_ratio.ln()) / (prime as f64).ln()).ceil() as u64', '(2.0 * (log_delta + golden_ratio.ln()) / (prime as f64).ln()) as u64'),
    (F, '(0..a.len()).map(|i| (a[i][j] as f64).powf(2.0)).sum::<f64>().sqrt()', '(0..a.len()).map(|i| (a[i][j] as f64).abs()).fold(0.0, |x: f64, y| x.max(y))'),
    (F, 'while &u1.pow(2) > &h {', 'while &u1 > &h {'),
    (F, 'let v1_next = v + q * &v1;', 'let v1_next = v - q * &v1;'),
    (F, 'sign = -sign;', 'if r_is_odd(&u1) { sign = -sign; }') if False else (F, 'BigRational::new(sign * u1, v1)', 'BigRational::new(u1, v1)'),
    (F, 's[i][j] += &p * x[i][j];', 's[i][j] += x[i][j];'),
    (F, 'if step + 1 < nr_steps {', 'if step + 2 < nr_steps {'),
    (F, 'b[i][j] = (b[i][j] - ax[i][j]) / prime;', 'b[i][j] = b[i][j] / prime - ax[i][j];'),
    (F, 'let ax = integer_matrix_product(a, &x);', 'let ax = modular_matrix_product(a, &x, prime);'),
    (F, 'let prime = 9999991;', 'let prime = 9999999;'),
    (F, 'for step in 0..nr_steps {', 'for step in 1..nr_steps {'),
    (F, 'let ncols = b[0].len();\n\n        let mut p', 'let ncols = 1;\n\n        let mut p'),
]
GOOD = [
    (F, 'if t < 0 { t + modulus } else { t }', 'if t >= 0 { t } else { modulus + t }'),
    (F, 'if t < 0 { t + modulus } else { t }', 't.rem_euclid(modulus)'),
    (F, '(r, r1) = (r1, r - q * r1);', '(r, r1) = (r1, r % r1);'),
    (F, '(irow..nrows).find(|&r| a[r][icol] != 0)', '(irow..nrows).find(|&k| 0 != a[k][icol])'),
    (F, 'if i != irow && a[i][icol] != 0 {', 'if i == irow { continue; }\n                if a[i][icol] != 0 {'),
    (F, 'if i != irow && a[i][icol] != 0 {', 'if i != irow {'),
    (F, """                        if a[irow][j] != 0 {
                            a[i][j] = (
                                prime - (a[irow][j] * f) % prime + a[i][j]
                            ) % prime;
                        }""", """                            a[i][j] = (
                                a[i][j] + prime - (f * a[irow][j]) % prime
                            ) % prime;"""),
    (F, """            for j in icol..ncols {
                a[irow][j] = (a[irow][j] * f) % prime;""", """            for j in 0..ncols {
                a[irow][j] = (f * a[irow][j]) % prime;"""),
    (F, 'swap_rows(&mut a, irow, r);', 'a.swap(irow, r);'),
    (F, """    for i in 0..n {
        for j in 0..n {
            if a[i][j] != (i == j) as i64 {
                return None;
            }
        }
    }""", """    for i in 0..n {
        for j in 0..n {
            let want = if i == j { 1 } else { 0 };
            if a[i][j] != want {
                return None;
            }
        }
    }"""),
    (F, """                .map(|i| (row[i] * b[i][j]) % prime)
                .reduce(|p, q| (p + q) % prime)
                .unwrap();""", """                .map(|i| (row[i] * b[i][j]) % prime)
                .fold(0, |p, q| (p + q) % prime);"""),
    (F, 'let p = (0..ncols_a).map(|i| row[i] * b[i][j]).sum();', 'let mut p = 0;\n            for i in 0..ncols_a { p += row[i] * b[i][j]; }'),
    (F, 'while &u1.pow(2) > &h {', 'while &(&u1 * &u1) > h {'),
    (F, 'let v1_next = v + q * &v1;', 'let v1_next = &q * &v1 + v;'),
    (F, '(2.0 * (log_delta + golden_ratio.ln()) / (prime as f64).ln()).ceil() as u64', '(2.0 * (log_delta + golden_ratio.ln()) / (prime as f64).ln()).ceil() as u64 + 1'),
    (F, 'if step + 1 < nr_steps {', 'if step < nr_steps - 1 {'),
    (F, 'if step + 1 < nr_steps {', '{ let _ = step;'),
    (F, 's[i][j] += &p * x[i][j];', 'let d = &p * x[i][j];\n                    s[i][j] += d;'),
    (F, 'p *= prime;', 'p = p * prime;'),
    (F, 'for i in 0..nrows {\n                    for j in 0..ncols {\n                        b[i][j] =', 'for j in 0..ncols {\n                    for i in 0..nrows {\n                        b[i][j] ='),
    (F, 'let prime = 9999991;', 'let prime = 9999973;'),
]
