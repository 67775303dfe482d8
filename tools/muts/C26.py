F = 'src/arithmetic/linear_algebra.rs'
BAD = [
 (F, '(s, s_next) = (s_next, s - q * s_next);', '(s, s_next) = (s_next, s + q * s_next);'),
 (F, '(a, r, s, r_next, s_next)', '(a, s, r, r_next, s_next)'),
 (F, 'v[k] = b[k] * t + v[k] * u;', 'v[k] = b[k] * u + v[k] * t;'),
 (F, 'let (_, r, s, t, u) = gcdx(b[col], v[col]);', 'let (_, r, s, t, u) = gcdx(v[col], b[col]);'),
 (F, '{    if v[col] < T::zero() {\n        for k in col..v.len() {', '{    if v[col] < T::zero() {\n        for k in (col + 1)..v.len() {'),
 (F, 'if v[col] % b[col] < T::zero() { T::one() } else { T::zero() }', 'if v[col] < T::zero() { T::one() } else { T::zero() }'),
 (F, 'let f = v[col] / b[col];\n        v[col] = 0.0;\n\n        for k in (col + 1)..v.len() {\n            v[k] -= b[k] * f;', 'let f = v[col] / b[col];\n        v[col] = 0.0;\n\n        for k in (col + 1)..v.len() {\n            v[k] = b[k] * f - v[k];'),
 (F, 'let a = &b[k] * &f;\n            v[k] -= a;', 'let a = &b[k] * &f;\n            v[k] = a;'),
 (F, 'if col < col_b {', 'if col <= col_b {'),
 (F, '    if pivot_column(&v).is_some() {\n        bs.push(v);\n    }', '    if pivot_column(&v).map(|c| c + 1 < v.len()).unwrap_or(false) {\n        bs.push(v);\n    }'),
 (F, 't -= a[i] * x[i][col];', 't -= a[i] * x[i][i];'),
 (F, '        if t % a[k] == T::zero() {\n            result[col] = t / a[k];\n        } else {\n            return None;\n        }', '        result[col] = t / a[k];'),
 (F, 'bs.insert(i, v);\n                return;', 'bs.insert(i, v);\n                bs.truncate(i + 2);\n                return;'),
 (F, 'for k in (col + 1)..v.len() {\n            v[k] -= &b[k] * &f;', 'for k in (col + 2)..v.len() {\n            v[k] -= &b[k] * &f;'),
]
GOOD = [
 (F, 'let f = v[col] / b[col] - (\n        if v[col] % b[col] < T::zero() { T::one() } else { T::zero() }\n    );', 'let r = v[col] % b[col];\n    let mut f = v[col] / b[col];\n    if r < T::zero() { f = f - T::one(); }'),
 (F, 'let f = std::mem::replace(&mut v[col], Self::zero()) / &b[col];\n        for k in (col + 1)..v.len() {\n            v[k] -= &b[k] * &f;\n        }', 'let f = &v[col] / &b[col];\n        for k in col..v.len() {\n            v[k] -= &b[k] * &f;\n        }'),
 (F, 'let tmp = det * (b[k] * r + v[k] * s);\n        v[k] = b[k] * t + v[k] * u;\n        b[k] = tmp;', 'let (x, y) = (b[k], v[k]);\n        b[k] = det * (x * r + y * s);\n        v[k] = x * t + y * u;'),
 (F, '    if f != T::zero() {\n        for k in col..v.len() {\n            v[k] -= b[k] * f;\n        }\n    }', '    for k in col..v.len() {\n        v[k] -= b[k] * f;\n    }'),
 (F, '(a, a_next) = (a_next, a - q * a_next);\n        (r, r_next) = (r_next, r - q * r_next);\n        (s, s_next) = (s_next, s - q * s_next);', 'let (a2, r2, s2) = (a - q * a_next, r - q * r_next, s - q * s_next);\n        a = a_next; r = r_next; s = s_next;\n        a_next = a2; r_next = r2; s_next = s2;'),
 (F, 'for k in col..v.len() {\n            v[k] = -v[k];\n        }', 'for x in v[col..].iter_mut() {\n            *x = -*x;\n        }'),
 (F, '        if let Some(col) = pivot_column(&v) {\n            let col_b = pivot_column(b).unwrap();\n\n            if col < col_b {', '        if let Some(col) = pivot_column(&v) {\n            let col_b = pivot_column(b).unwrap();\n            if col > col_b { continue; }\n\n            if col < col_b {'),
 (F, '    for i in 0..bs.len() {\n        let mut b = &mut bs[i];\n        assert!(b.len() == v.len());\n\n        if let Some(col) = pivot_column(&v) {', '    for i in 0..bs.len() {\n        if let Some(col) = pivot_column(&v) {\n            let mut b = &mut bs[i];\n            assert!(b.len() == v.len());\n'),
 (F, '        let mut basis = vec![];\n        for i in 0..nrows {\n            extend_basis(&self.get_row(i), &mut basis);\n        }\n        basis.len()', '        let mut basis: Vec<Vec<T>> = vec![];\n        for row in self.get_rows() {\n            extend_basis(&row, &mut basis);\n        }\n        basis.len()'),
 (F, '        let mut t = b[col];\n        for i in 0..k {\n            t -= a[i] * x[i][col];\n        }\n', '        let s = (0..k).fold(T::zero(), |s, i| s + a[i] * x[i][col]);\n        let t = b[col] - s;\n'),
]
