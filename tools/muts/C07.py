G = 'src/arithmetic/geometry.rs'
BAD = [
 (G, 'let s = Vector::new(&(&a * &self.shift.coords).data);\n            Some(AffineMap::new(&a, &-s))', 'Some(AffineMap::new(&a, &-self.shift.clone()))'),
 (G, 'Some(AffineMap::new(&a, &-s))', 'Some(AffineMap::new(&a, &s))'),
 (G, 'ScalarProduct::from(a.transpose() * &rhs.coeffs * a)', 'ScalarProduct::from(a.clone() * &rhs.coeffs * &a.transpose())'),
 (G, 'let a = &self.backward.linear_coeffs;', 'let a = &self.forward.linear_coeffs;'),
 (G, 'AffineMap::adjust(&self.forward * rhs) * &self.backward', 'AffineMap::adjust(self.backward.clone()) * &AffineMap::adjust(&self.forward * rhs)'),
 (G, 'backward: AffineMap::adjust(rhs.backward.clone()) * &self.backward,', 'backward: AffineMap { linear_coeffs: self.backward.linear_coeffs.clone(), shift: self.backward.shift.clone() } * &AffineMap::adjust(rhs.backward.clone()),') ,
 (G, '            &self.linear_coeffs * &rhs.shift.coords + &self.shift.coords\n        );\n        AffineMap::new(', '            &rhs.linear_coeffs * &self.shift.coords + &rhs.shift.coords\n        );\n        AffineMap::new('),
 (G, '''        self.linear_coeffs.is_identity()
        &&
        self.shift.coords.iter().all(|x| x.is_zero())''', '''        self.linear_coeffs.is_identity()
        ||
        self.shift.coords.iter().all(|x| x.is_zero())'''),
 (G, 'self.shift.coords.iter().all(|x| x.is_zero())', 'self.shift.coords.iter().take(2).all(|x| x.is_zero())'),
 (G, 'let cols: Vec<_> = basis.iter().map(|a| a.coords.clone()).collect();\n        Self::new(&Matrix::hstack(&cols).into())', 'let cols: Vec<_> = basis.iter().map(|a| a.coords.transpose()).collect();\n        Self::new(&Matrix::vstack(&cols).into())'),
 (G, 't += &u[i] * &self[(i, j)] * &v[j];', 't += &u[i] * &self[(i, j)] * &v[i];'),
 (G, 'for i in 1..=coeffs.shape().0 {', 'for i in 1..coeffs.shape().0 {'),
 (G, '''            forward: self.backward.clone(),
            backward: self.forward.clone()''', '''            forward: self.backward.clone(),
            backward: AffineMap::adjust(self.backward.clone())'''),
 (G, 'Point::from(&self.linear_coeffs * &rhs.coords + &self.shift.coords)', 'Point::from(&self.linear_coeffs * &rhs.coords)'),
 (G, '        let mut coords = self.coords.clone();\n        coords -= rhs.coords;\n        Vector::new(&coords.data)', '        let mut coords = rhs.coords.clone();\n        coords -= self.coords.clone();\n        Vector::new(&coords.data)'),
 (G, 'self.forward.linear_matrix().determinant()', 'self.forward.linear_matrix().submatrix(0..2, 0..2).determinant()'),
]
GOOD = [
 (G, '''        if let Some(a) = self.linear_coeffs.inverse() {
            let s = Vector::new(&(&a * &self.shift.coords).data);
            Some(AffineMap::new(&a, &-s))
        } else {
            None
        }''', '''        self.linear_coeffs.inverse().map(|a| {
            let t = -(&(&a * &self.shift.coords));
            AffineMap { linear_coeffs: a, shift: Vector::from(t) }
        })'''),
 (G, '''        let mut t = T::zero();
        for i in 0..u.dim() {
            for j in 0..u.dim() {
                t += &u[i] * &self[(i, j)] * &v[j];
            }
        }
        t''', '''        let n = self.dim();
        let mut t = T::zero();
        for j in 0..n {
            for i in 0..n {
                let uv = &u[i] * &v[j];
                t += uv * &self.coeffs[(i, j)];
            }
        }
        t'''),
 (G, '''        self.linear_coeffs.is_identity()
        &&
        self.shift.coords.iter().all(|x| x.is_zero())''', '''        for i in 0..self.dim() {
            if !self.shift[i].is_zero() {
                return false;
            }
        }
        self.linear_coeffs.is_identity()'''),
 (G, '''        CoordinateMap {
            forward: forward.clone(),
            backward: AffineMap::adjust(forward.inverse().unwrap()),
        }''', '''        let back = match forward.inverse() {
            Some(m) => m,
            None => panic!("singular coordinate map"),
        };
        Self { backward: AffineMap::adjust(back), forward: forward.clone() }'''),
 (G, '''        let mut v = Vector::zero(n);
        v[k] = T::one();
        v''', '''        (0..n).map(|i| if i == k { T::one() } else { T::zero() }).collect()'''),
 (G, '''        assert_eq!(&coeffs, &coeffs.transpose());
        for i in 1..=coeffs.shape().0 {
            assert!(coeffs.submatrix(0..i, 0..i).determinant() > T::zero());
        }
''', '''        if coeffs != coeffs.transpose() {
            panic!("not symmetric");
        }
        let definite = (1..=coeffs.shape().0).all(|k| {
            let minor = coeffs.submatrix(0..k, 0..k);
            minor.determinant() > T::zero()
        });
        assert!(definite);
'''),
 (G, 'CoordinateMap::<T, CSOut, CSIn>::from_basis(basis).inverse()', 'let m = CoordinateMap::<T, CSOut, CSIn>::from_basis(basis);\n        CoordinateMap { forward: m.backward, backward: m.forward }'),
]
