F = 'src/arithmetic/matrices.rs'
BAD = [
    (F, '.flat_map(|j| (0..nrows).map(move |i| self[(i, j)].clone()))', '.flat_map(|j| (0..nrows).map(move |i| self[(j, i)].clone()))'),
    (F, 'Matrix::new(nrows, &data)', 'Matrix::new(ncols, &data)'),
    (F, 'data.push(self[(i + rows.start, j + cols.start)].clone());', 'data.push(self[(i + rows.start, j + rows.start)].clone());'),
    (F, 't *= &rhs[(k, j)];', 't *= &rhs[(j, k)];'),
    (F, 'for k in 0..colslft {', 'for k in 1..colslft {'),
    (F, 'assert!(parts.iter().all(|m| m.nrows == nrows));', ''),
    (F, 'assert!(colslft == rowsrgt);', ''),
    (F, 'self.data[(i * m)..(i * m + m)].to_vec()', 'self.data[(i * m)..(i * m + self.nrows)].to_vec()'),
    (F, 'if !self[(i, j)].is_zero() {\n                        return false', 'if i < j && !self[(i, j)].is_zero() {\n                        return false'),
    (F, '''        for i in 0..self.data.len() {
            self.data[i] -= &rhs.data[i];''', '''        for i in 0..self.nrows {
            self.data[i] -= &rhs.data[i];'''),
    (F, 'assert!(self.ncols == rhs.ncols);', ''),
    (F, 'assert_eq!(data.len(), nrows * ncols);', ''),
]
GOOD = [
    (F, '''        let data: Vec<_> = (0..ncols)
            .flat_map(|j| (0..nrows).map(move |i| self[(i, j)].clone()))
            .collect();
''', '''        let mut data = Vec::with_capacity(nrows * ncols);
        for j in 0..ncols {
            for i in 0..nrows {
                data.push(self.data[i * ncols + j].clone());
            }
        }
'''),
    (F, '(0..nrows).map(|i| self[(i, j)].clone()).collect()', 'self.data.iter().skip(j).step_by(ncols).cloned().collect()'),
    (F, '(0..nrows).map(|i| self[(i, j)].clone()).collect()', 'self.data.chunks(ncols).map(|r| r[j].clone()).collect()'),
    (F, '''        let data: Vec<_> = (0..ncols)
            .flat_map(|j| (0..nrows).map(move |i| self[(i, j)].clone()))
            .collect();
''', '''        let data: Vec<_> = (0..nrows * ncols)
            .map(|k| self[(k % nrows, k / nrows)].clone())
            .collect();
'''),
    (F, '''        let mut result: Matrix<T> = Matrix::zero(rowslft, colsrgt);

        for i in 0..rowslft {
            for j in 0..colsrgt {
                let mut s = T::zero();
                for k in 0..colslft {
                    let mut t = self[(i, k)].clone();
                    t *= &rhs[(k, j)];
                    s += &t;
                }
                result[(i, j)] = s;
            }
        }

        result''', '''        let mut out: Vec<T> = Vec::new();
        for i in 0..rowslft {
            for j in 0..colsrgt {
                let mut s = T::zero();
                for k in 0..rowsrgt {
                    let mut t = rhs[(k, j)].clone();
                    t *= &self[(i, k)];
                    s += &t;
                }
                out.push(s);
            }
        }
        Matrix::new(colsrgt, &out)'''),
    (F, '''        for i in 0..self.data.len() {
            self.data[i] -= &rhs.data[i];
        }''', '''        for (x, y) in self.data.iter_mut().zip(rhs.data.iter()) {
            *x -= y;
        }'''),
    (F, '''        let mut id = Matrix::zero(n, n);
        for i in 0..n {
            id[(i, i)] = T::one();
        }
        id''', '''        let mut data = vec![T::zero(); n * n];
        for i in 0..n {
            data[i * (n + 1)] = T::one();
        }
        Matrix::new(n, &data)'''),
    (F, '''                for irow in 0..p.nrows {
                    for icol in 0..p.ncols {
                        data.push(p[(irow, icol)].clone())
                    }
                }
            }
            Matrix::new(ncols, &data)''', '''                data.extend(p.data.iter().cloned());
            }
            Matrix::new(ncols, &data)'''),
    (F, '''        for i in 0..nrows {
            for j in 0..ncols {
                if j == i {
                    if !self[(i, j)].is_one() {
                        return false;
                    }
                } else {
                    if !self[(i, j)].is_zero() {
                        return false;
                    }
                }
            }
        }
        true''', '''        (0..nrows).all(|i| (0..ncols).all(|j| {
            let x = &self[(i, j)];
            if i == j { x.is_one() } else { x.is_zero() }
        }))'''),
    (F, '''        let nrows = if data.len() == 0 { 0 } else { data.len() / ncols };
        assert_eq!(data.len(), nrows * ncols);
''', '''        let nrows = if data.is_empty() { 0 } else { data.len() / ncols };
        assert!(data.len() == nrows * ncols, "bad shape");
'''),
    (F, '''        let nrows = if data.len() == 0 { 0 } else { data.len() / ncols };
        assert_eq!(data.len(), nrows * ncols);
''', '''        let nrows = match data.len() { 0 => 0, n => { assert!(n % ncols == 0); n / ncols } };
'''),
    (F, '''        let m = self.ncols;
        assert!(i * m < self.data.len());

        self.data[(i * m)..(i * m + m)].to_vec()''', '''        (0..self.ncols).map(|j| self[(i, j)].clone()).collect()'''),
]
