M = 'src/arithmetic/matrices.rs'
G = 'src/arithmetic/geometry.rs'
L = 'src/arithmetic/linear_algebra.rs'
S = 'src/arithmetic/modular_solver.rs'
T = 'src/spacegroups/lattices.rs'
IDX = '''        assert!(i * self.ncols < self.data.len());
        assert!(j < self.ncols);

        &self.data'''
IDXM = '''        assert!(i * self.ncols < self.data.len());
        assert!(j < self.ncols);

        &mut self.data'''
BAD = [
 (M, IDX, '''        assert!(i * self.ncols < self.data.len());

        &self.data'''),
 (M, IDX, '''        assert!(i * self.ncols + j < self.data.len());

        &self.data'''),
 (M, IDXM, '''        assert!(i < self.nrows);
        assert!(j <= self.ncols);

        &mut self.data'''),
 (M, '''    fn add_assign(&mut self, rhs: &Matrix<T>) {
        assert!(self.data.len() == rhs.data.len());
        assert!(self.ncols == rhs.ncols);
''', '''    fn add_assign(&mut self, rhs: &Matrix<T>) {
        assert!(self.data.len() == rhs.data.len());
'''),
 (M, '''    fn sub_assign(&mut self, rhs: Matrix<T>) {
        assert!(self.data.len() == rhs.data.len());
        assert!(self.ncols == rhs.ncols);
''', '''    fn sub_assign(&mut self, rhs: Matrix<T>) {
        assert!(self.ncols == rhs.ncols);
'''),
 (M, '        assert!(colslft == rowsrgt);\n', '        assert!(colslft <= rowsrgt);\n'),
 (M, '            assert!(parts.iter().all(|m| m.nrows == nrows));\n', ''),
 (M, '            assert!(parts.iter().all(|m| m.ncols == ncols));\n', ''),
 (M, 'assert!(parts.iter().all(|m| m.nrows == nrows));', 'assert!(parts.iter().all(|m| m.nrows >= nrows));'),
 (M, '        assert!(i * m < self.data.len());\n\n        self.data[(i * m)..(i * m + m)].to_vec()', '        self.data.iter().skip(i * m).take(m).cloned().collect()'),
 (M, '        assert_eq!(data.len(), nrows * ncols);\n', ''),
 (M, '        assert!(k < n);\n        let mut row', '        let k = k % n;\n        let mut row'),
 (M, '        assert!(rows.end <= self.nrows);\n        assert!(cols.end <= self.ncols);\n\n        let nrows = rows.end - rows.start;', '        let nrows = rows.end.min(self.nrows) - rows.start;\n        assert!(cols.end <= self.ncols);\n'),
 (G, '''    fn add_assign(&mut self, rhs: Vector<T,  CS>) {
        assert_eq!(self.dim(), rhs.dim());
        self.coords += &rhs.coords
    }
}

impl<T,  CS> AddAssign<&Vector<T,  CS>> for Vector''', '''    fn add_assign(&mut self, rhs: Vector<T,  CS>) {
        for i in 0..self.dim().min(rhs.dim()) { self.coords[(i, 0)] += &rhs.coords[(i, 0)]; }
    }
}

impl<T,  CS> AddAssign<&Vector<T,  CS>> for Vector'''),
 (G, '        assert_eq!(u.dim(), self.dim());\n        assert_eq!(v.dim(), self.dim());\n', '        assert!(u.dim() <= self.dim());\n        assert_eq!(v.dim(), self.dim());\n'),
 (G, '        assert_eq!(u.dim(), self.dim());\n        assert_eq!(v.dim(), self.dim());\n', '        assert_eq!(u.dim(), self.dim());\n'),
 (G, '        assert_eq!(linear_coeffs.shape().1, n);\n', ''),
 (G, '        assert_eq!(linear_coeffs.shape().0, n);\n', ''),
 (L, '        assert!(b.len() == v.len());\n', ''),
 (L, '        assert!(nrows == ncols, "must be a square matrix");\n', '        let _ = (nrows, ncols);\n'),
 [(L, '        assert!(rowslft == rowsrgt);\n', '        let rows = rowslft.min(rowsrgt);\n'), (L, '        let t = Matrix::hstack(&[self.clone(), rgt.clone()]).reduced_basis();\n        if t.nrows', '        let t = Matrix::hstack(&[self.submatrix(0..rows, 0..colslft), rgt.submatrix(0..rows, 0..colsrgt)]).reduced_basis();\n        if t.nrows')],
 (S, '''    assert!(ncols_a == b.len());

    let mut product = vec![];
    for row in a {
        let mut row_out = vec![];
        for j in 0..ncols_b {
            let p = (0..ncols_a)
                .map(''', '''    let mut product = vec![];
    for row in a {
        let mut row_out = vec![];
        for j in 0..ncols_b {
            let p = (0..ncols_a)
                .map('''),
 (S, '''    assert!(ncols_a == b.len());

    let mut product = vec![];
    for row in a {
        let mut row_out = vec![];
        for j in 0..ncols_b {
            let p = (0..ncols_a).map(''', '''    let mut product = vec![];
    for row in a {
        let mut row_out = vec![];
        for j in 0..ncols_b {
            let p = (0..ncols_a).map('''),
 (S, '        assert!(row.len() == n);\n', ''),
 (S, '        assert!(row.len() == n);\n', '        assert!(row.len() >= n);\n'),
 (T, '    assert!(basis.iter().all(|v| v.len() == n));\n', ''),
 (T, '    assert!(basis.iter().all(|v| v.len() == n));\n', '    assert!(basis.iter().all(|v| v.len() >= n));\n'),
]
GOOD = [
 (M, IDX, '''        if i >= self.nrows || j >= self.ncols {
            panic!("index out of range");
        }

        &self.data'''),
 (M, '''    fn add_assign(&mut self, rhs: &Matrix<T>) {
        assert!(self.data.len() == rhs.data.len());
        assert!(self.ncols == rhs.ncols);
''', '''    fn add_assign(&mut self, rhs: &Matrix<T>) {
        assert_eq!(self.shape(), rhs.shape());
'''),
 (M, '''    fn add_assign(&mut self, rhs: &Matrix<T>) {
        assert!(self.data.len() == rhs.data.len());
        assert!(self.ncols == rhs.ncols);

        for i in 0..self.data.len() {
            self.data[i] += &rhs.data[i];
        }''', '''    fn add_assign(&mut self, rhs: &Matrix<T>) {
        assert!(self.data.len() == rhs.data.len());
        assert!(self.ncols == rhs.ncols);

        for (x, y) in self.data.iter_mut().zip(rhs.data.iter()) {
            *x += y;
        }'''),
 [(L, '        assert!(rowslft == rowsrgt);\n', '        let _ = (rowslft, rowsrgt);\n')],
 (M, '            assert!(parts.iter().all(|m| m.nrows == nrows));\n', '            for m in parts { assert_eq!(m.nrows, nrows, "parts differ"); }\n'),
 (M, '            assert!(parts.iter().all(|m| m.nrows == nrows));\n', '            if parts.iter().any(|m| m.nrows != nrows) { panic!("parts differ") }\n'),
 (M, '        assert!(colslft == rowsrgt);\n', '        if colslft != rowsrgt { panic!("{} columns and {} rows", colslft, rowsrgt); }\n'),
 (M, '        assert!(j < ncols);\n', ''),
 (L, '        assert!(b.len() == v.len());\n', '        if b.len() != v.len() { panic!("different lengths"); }\n'),
 (L, '    let mut v = v.to_vec();\n\n    for i in', '    let mut v = v.to_vec();\n    for b in bs.iter() { assert_eq!(b.len(), v.len()); }\n\n    for i in'),
 (L, '        assert!(nrows == ncols, "must be a square matrix");\n', '        assert_eq!(nrows, ncols);\n'),
 (S, '        assert!(row.len() == n);\n', '        if row.len() != n { panic!("not square"); }\n'),
 (T, '    assert!(basis.iter().all(|v| v.len() == n));\n', '    for v in basis { assert_eq!(v.len(), n); }\n'),
 (T, '    assert!(basis.iter().all(|v| v.len() == n));\n', '    assert!(!basis.iter().any(|v| v.len() != basis.len()));\n'),
 (G, '        assert_eq!(u.dim(), self.dim());\n        assert_eq!(v.dim(), self.dim());\n', '        let n = self.dim();\n        assert!(u.dim() == n && v.dim() == n);\n'),
 (G, '        assert_eq!(linear_coeffs.shape().0, n);\n        assert_eq!(linear_coeffs.shape().1, n);\n', '        assert_eq!(linear_coeffs.shape(), (n, n));\n'),
]
