G = 'src/pgraphs.rs'
S = 'src/symmetries.rs'
Z = 'src/arithmetic/geometry.rs'
L = 'src/arithmetic/linear_algebra.rs'
PN = 'self.position(&v).iter().map(|q| q - q.floor()).collect()'
M1 = 'p.iter().map(|x| x - x.floor()).collect()'
MZ = 'self.iter().cloned().map(|x| x % T::one()).collect()'
AZ = 'AffineMap::new(&self.linear_matrix(), &self.shift().mod_z())'
RB = '''            Scalar::normalize_column(col, &mut basis[row]);

            let b = basis[row].clone();
            for i in 0..row {
                Scalar::reduce_column(col, &mut basis[i], &b);
            }
'''
BAD = [
 (G, PN, PN.replace('q.floor()', 'q.trunc()')),
 (G, PN, PN.replace('q.floor()', 'q.round()')),
 (G, PN, PN.replace('q - q.floor()', 'q.clone()')),
 (G, PN, PN.replace('q - q.floor()', 'q.fract()')),
 (G, PN, PN.replace('q - q.floor()', 'q - q.ceil() + BigInt::from(1)')),
 (S, M1, M1.replace('x.floor()', 'x.trunc()')),
 (S, M1, M1.replace('x - x.floor()', 'if x.is_negative() { x + BigRational::one() } else { x % BigInt::one() }')),
 (S, 'orbit.iter().skip(1).any(|v| mod1(&graph.position(v)) == p0)', 'orbit.iter().skip(1).any(|v| graph.position(v) == p0)'),
 (S, '.find(|v| mod1(&(graph.position(v) + &b)) == p0)', '.find(|v| graph.position(v) + &b == p0)'),
 (Z, MZ, 'self.iter().cloned().map(|x| x).collect()'),
 (Z, AZ, 'AffineMap::new(&self.linear_matrix(), &self.shift())'),
 (L, RB, RB.replace('0..row', '1..row')),
 (L, RB, RB.replace('0..row', 'row.saturating_sub(1)..row')),
 (L, RB, '''            let b = basis[row].clone();
            for i in 0..row {
                Scalar::reduce_column(col, &mut basis[i], &b);
            }
            Scalar::normalize_column(col, &mut basis[row]);
'''),
 (L, RB, RB.replace('            Scalar::normalize_column(col, &mut basis[row]);\n', '            if row > 0 { Scalar::normalize_column(col, &mut basis[row]); }\n')),
]
GOOD = [
 (G, PN, 'self.position(&v).iter().map(|q| { let n = q.floor(); q - n }).collect()'),
 (G, PN, 'let p = self.position(&v);\n        p.iter().map(|q| q - BigRational::from(q.floor().to_integer())).collect()'),
 (S, M1, 'let mut out = vec![];\n    for x in p.iter() {\n        out.push(x - x.floor());\n    }\n    Point::new(&out)'),
 (S, 'orbit.iter().skip(1).any(|v| mod1(&graph.position(v)) == p0)', 'orbit.iter().skip(1).any(|v| p0 == mod1(&graph.position(v)))'),
 (L, RB, RB.replace('            for i in 0..row {\n', '            for i in (0..row).rev() {\n')),
 (Z, AZ, 'let t = self.shift().mod_z();\n        AffineMap::new(&self.linear_matrix(), &t)'),
 (L, RB, '''            let mut b = basis[row].clone();
            Scalar::normalize_column(col, &mut b);
            for i in 0..row {
                Scalar::reduce_column(col, &mut basis[i], &b);
            }
            basis[row] = b;
'''),
 (L, RB, '''            Scalar::normalize_column(col, &mut basis[row]);
            let b = basis[row].clone();
            basis.iter_mut().take(row).for_each(|v| Scalar::reduce_column(col, v, &b));
'''),
]
