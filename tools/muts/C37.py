F = 'src/arithmetic/linear_algebra.rs'
LOOP = '''        let mut x = vec![];
        for i in 0..rgt.nrows {
            match Scalar::solve_row(&b.get_row(i), &x, &rgt.get_row(i)) {
                Some(r) => x.push(r),
                None => return None,
            }
        }
        for _i in rgt.nrows..u.ncols {
            x.push(vec![T::zero(); rgt.ncols]);
        }
'''
BAD = [
 (F, 'if lft.rank() < lft.nrows {\n            return None;\n        }\n', 'if lft.rank() + 1 < lft.nrows {\n            return None;\n        }\n'),
 (F, 'if lft.rank() < lft.nrows {\n            return None;\n        }\n', 'if lft.rank() < colslft {\n            return None;\n        }\n'),
 (F, 'if t.nrows == 0 {\n            return Some(Matrix::zero(colslft, colsrgt));\n        }', 'if t.nrows == 0 {\n            return Some(Matrix::zero(rowslft, colsrgt));\n        }'),
 (F, 'if t.nrows == 0 {\n            return Some(Matrix::zero(colslft, colsrgt));\n        }', 'if t.nrows == 0 {\n            return None;\n        }'),
 (F, 'let u = t.submatrix(0..t.nrows, lft.nrows..t.ncols).transpose();', 'let u = t.submatrix(0..t.nrows, lft.nrows..t.ncols);'),
 (F, 'for i in 0..rgt.nrows {\n            match', 'for i in 0..rgt.nrows.min(3) {\n            match'),
 (F, 'for _i in rgt.nrows..u.ncols {', 'for _i in x.len()..lft.ncols.min(3) {'),
 (F, 'if t % a[k] == T::zero() {', 'if t % a[k] <= T::zero() {'),
 (F, 'for i in 0..k {\n            t -= a[i] * x[i][col];', 'for i in 0..k.min(2) {\n            t -= a[i] * x[i][col];'),
 (F, 't -= a[i] * x[i][col];', 't -= a[i] * x[k - 1][col];'),
 (F, 'result[col] = t / a[k];', 'result[col] = b[col] / a[k];'),
 (F, 'Some(rgt.submatrix(k..rgt.nrows, 0..rgt.ncols).transpose())', 'Some(rgt.submatrix(k..rgt.nrows, 0..rgt.ncols.min(3)).transpose())'),
 (F, 'Some(rgt.submatrix(k..rgt.nrows, 0..rgt.ncols).transpose())', 'Some(rgt.submatrix(k..(k + 1), 0..rgt.ncols).transpose())'),
 (F, 'if k < rgt.nrows {', 'if k + 1 < rgt.nrows {'),
 (F, 'let k = lft.rank();', 'let k = lft.rank().max(1);'),
 (F, 'let k = lft.rank();', 'let k = self.nrows.min(m.nrows);'),
 (F, 'self.solve(&Matrix::identity(nrows))', 'self.transpose().solve(&Matrix::identity(nrows))'),
 (F, 'Scalar::normalize_column(col, &mut basis[row]);', 'if row > 0 { Scalar::normalize_column(col, &mut basis[row]); }'),
 (F, '''            for i in 0..row {
                Scalar::reduce''', '''            for i in 1..row {
                Scalar::reduce'''),
 (F, 'let b = basis[row].clone();\n            for i in 0..row {', 'let b = basis[row].clone();\n            for i in 0..row.min(2) {'),
 (F, '''        for i in 0..nrows {
            extend_basis(&self.get_row(i), &mut basis);
        }

        let mut col = 0;''', '''        for i in 0..nrows.min(3) {
            extend_basis(&self.get_row(i), &mut basis);
        }

        let mut col = 0;'''),
 (F, 'let lft = t.submatrix(0..t.nrows, 0..m.ncols);\n        let rgt = t.submatrix(0..t.nrows, m.ncols..t.ncols);', 'let lft = t.submatrix(0..t.nrows, 0..m.ncols);\n        let rgt = t.submatrix(0..t.nrows, m.nrows..t.ncols);'),
 (F, 'let b = t.submatrix(0..t.nrows, 0..lft.nrows).transpose();', 'let b = lft.clone();'),
]
GOOD = [
 (F, LOOP, '''        let mut x = vec![];
        for i in 0..rgt.nrows {
            if let Some(r) = Scalar::solve_row(&b.get_row(i), &x, &rgt.get_row(i)) {
                x.push(r);
            } else {
                return None;
            }
        }
        while x.len() < u.ncols {
            x.push(vec![T::zero(); rgt.ncols]);
        }
'''),
 (F, LOOP, '''        let mut x: Vec<Vec<T>> = Vec::with_capacity(u.ncols);
        for (i, r) in rgt.get_rows().iter().enumerate() {
            x.push(Scalar::solve_row(&b.get_row(i), &x, r)?);
        }
        x.resize(u.ncols, vec![T::zero(); rgt.ncols]);
'''),
 (F, 'if lft.rank() < lft.nrows {\n            return None;\n        }\n', 'let consistent = lft.rank() == lft.nrows;\n        if !consistent {\n            return None;\n        }\n'),
 (F, '''        if k < rgt.nrows {
            Some(rgt.submatrix(k..rgt.nrows, 0..rgt.ncols).transpose())
        } else {
            None
        }''', '''        if k >= rgt.nrows {
            return None;
        }
        let kernel = rgt.submatrix(k..rgt.nrows, 0..rgt.ncols);
        Some(kernel.transpose())'''),
 (F, 'let k = lft.rank();', 'let k = self.rank();'),
 (F, '''            while basis[row][col].is_zero() {
                col += 1;
            }
''', '''            while basis[row][col].is_zero() { col = col + 1; }
'''),
 (F, '''            while basis[row][col].is_zero() {
                col += 1;
            }
''', '''            col = basis[row].iter().position(|x| !x.is_zero()).unwrap();
'''),
 (F, '''            for i in 0..row {
                Scalar::reduce_column(col, &mut basis[i], &b);
            }''', '''            for a in basis[..row].iter_mut() {
                Scalar::reduce_column(col, a, &b);
            }'''),
 (F, '''            for i in 0..row {
                Scalar::reduce_column(col, &mut basis[i], &b);
            }''', '''            for i in (0..row).rev() {
                Scalar::reduce_column(col, &mut basis[i], &b);
            }'''),
 (F, '''        let mut t = b[col];
        for i in 0..k {
            t -= a[i] * x[i][col];
        }
        if t % a[k] == T::zero() {
            result[col] = t / a[k];
        } else {
            return None;
        }''', '''        let mut t = b[col];
        for (y, &c) in x.iter().zip(a.iter()) {
            t -= c * y[col];
        }
        let q = t / a[k];
        if q * a[k] != t {
            return None;
        }
        result[col] = q;'''),
 (F, 'x.push(vec![T::zero(); rgt.ncols]);', 'x.push(vec![T::one(); rgt.ncols]);'),
]
