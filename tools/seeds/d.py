SEEDS = [
 dict(id='s41-newline-failure-swallowed', property='C38', edits=[('src/pgraphs.rs', '            write!(f, "\\n")?;\n', '            f.write_str("\\n").unwrap_or_default();\n')], main='''use rust_systre::pgraphs::*;
use std::fmt::Write;
struct Full(usize, String);
impl Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.1.len() + s.len() > self.0 { return Err(std::fmt::Error); }
        self.1.push_str(s);
        Ok(())
    }
}
fn main() {
    let g = Graph::new(&[Edge::new(1, 1, LabelVector2d::<InputCS>::new(1, 0)), Edge::new(1, 1, LabelVector2d::new(0, 1))]);
    let text = format!("{}", g);
    for room in 0..text.len() {
        let mut out = Full(room, String::new());
        assert!(write!(out, "{}", g).is_err(), "{} of {} characters were written, and no failure is reported", out.1.len(), text.len());
    }
    assert!(write!(Full(text.len(), String::new()), "{}", g).is_ok());
}
''', needs='an output that fails exactly when a line of a printed net ends', what='the failure is not reported, and the net is printed incompletely'),
 dict(id='s42-substitution-cut', property='C37', edits=[('src/arithmetic/linear_algebra.rs', '        for i in 0..k {\n            t -= a[i] * x[i][col];', '        for i in 0..k.min(5) {\n            t -= a[i] * x[i][col];')], main='''use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::arithmetic::linear_algebra::LinearAlgebra;
fn main() {
    for n in 2..9usize {
        let mut d = vec![0i64; n * n];
        for i in 0..n { d[i * n + i] = 1; }
        d[(n - 2) * n + n - 2] = 2;
        d[(n - 2) * n + n - 1] = 1;
        d[n * n - 1] = 7;
        let a = Matrix::new(n, &d);
        let x = Matrix::new(1, &(1..=n as i64).collect::<Vec<_>>());
        let b = &a * &x;
        let y = a.solve(&b);
        assert!(y.is_some() && &a * &y.unwrap() == b, "{} unknowns", n);
    }
}
''', needs='an integer system with seven or more unknowns', what='such a system is answered wrongly or as not solvable'),
 dict(id='s44-centering-limited', property='C35', edits=[('src/spacegroups/basics.rs', '            if op.linear_matrix() == id && op.shift() != s0 {', '            if translations.len() < 2 * dim && op.linear_matrix() == id && op.shift() != s0 {')], file='src/spacegroups/basics.rs', test='''    #[test]
    fn seeded_demo() {
        use num_bigint::BigInt;
        #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        struct A {}
        #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        struct B {}
        let q = |n: i32, d: i32| BigRational::new(BigInt::from(n), BigInt::from(d));
        // all translations of a cell that is 2 x 2 x 3 times as large; those along the last axis come last
        let mut ops: Vec<AffineMap<BigRational, A>> = vec![];
        for k in 0..3 { for j in 0..2 { for i in 0..2 {
            ops.push(AffineMap::new(&Matrix::identity(3), &Vector::new(&[q(i, 2), q(j, 2), q(k, 3)])));
        } } }
        let p: PrimitiveSetting<A, B> = PrimitiveSetting::new(&ops);
        let rows: Vec<Vec<_>> = p.cell.iter().map(|v| v.iter().cloned().collect()).collect();
        let m = Matrix::vstack(&rows.iter().map(|r| Matrix::row(r)).collect::<Vec<_>>());
        let d: BigRational = crate::arithmetic::linear_algebra::LinearAlgebra::determinant(&m);
        assert_eq!(num_traits::Signed::abs(&d), q(1, 12));
        assert_eq!(p.ops.len(), 1);
    }
''', needs='a list with more than three pure translations whose first ones do not generate the others', what='the cell of the primitive setting is too large'),
 dict(id='s45-third-vector-sign', property='C29', edits=[('src/spacegroups/lattices.rs', '        a.push(if a.len() > 0 && dot(&a[0], &w).is_positive() {', '        a.push(if a.len() == 1 && dot(&a[0], &w).is_positive() {')], main='''use rust_systre::spacegroups::lattices::*;
use num_rational::BigRational;
use num_bigint::BigInt;
use num_traits::Zero;
fn main() {
    let q = |n: i32| BigRational::from(BigInt::from(n));
    let dot = |v: &[BigRational], w: &[BigRational]| (0..v.len()).map(|i| &v[i] * &w[i]).fold(BigRational::zero(), |a, b| a + b);
    for a in -2..3 { for b in -2..3 { for c in -2..3 {
        let vs = vec![vec![q(3), q(0), q(1)], vec![q(a), q(4), q(b)], vec![q(1), q(c), q(5)]];
        if let Some(r) = reduced_lattice_basis(&vs, dot, &BigRational::zero()) {
            for k in 1..3 { assert!(dot(&r[0], &r[k]) <= q(0), "{:?}", (a, b, c, k)); }
        }
    } } }
}
''', needs='a lattice in space whose third basis vector comes out at an acute angle to the first', what='the basis is not brought to the defined form'),
 dict(id='s46-smallest-right-hand-side', property='C27', edits=[('src/arithmetic/modular_solver.rs', '        .max_by(|a, b| a.total_cmp(b))', '        .min_by(|a, b| a.total_cmp(b))')], main='''use rust_systre::arithmetic::modular_solver::solve;
use num_rational::BigRational;
use num_bigint::BigInt;
fn main() {
    let a = vec![vec![1, 2], vec![3, 4]];
    let big = 123_456_789_012i64;
    for b in [vec![vec![1], vec![1]], vec![vec![1, big], vec![1, big + 7]], vec![vec![big, 1], vec![3, 1]]] {
        let x = solve(&a, &b).unwrap();
        for i in 0..2 { for j in 0..b[0].len() {
            let s: BigRational = (0..2).map(|k| BigRational::from(BigInt::from(a[i][k])) * &x[k][j]).sum();
            assert_eq!(s, BigRational::from(BigInt::from(b[i][j])));
        } }
    }
}
''', needs='several right hand sides of very different size', what='the solution for the larger one is wrong'),
 dict(id='s47-term-overflow', property='C10', edits=[('src/spacegroups/parse_operator.rs', '            Axis::None => shift = q.checked_add(&shift)?,', '            Axis::None => shift += q,')], main='''use rust_systre::spacegroups::parse_operator::parse_operator;
fn main() {
    for s in ["x+999999999+999999999+999999999,y,z", "x,y,1/999999937+1/999999929+1/999999893", "x,y,z+1/2"] {
        let r = std::panic::catch_unwind(|| parse_operator(s).is_ok());
        assert!(r.is_ok(), "{} panics", s);
    }
}
''', needs='an operator whose constant terms add up to more than a 32 bit number', what='the reader panics'),
 dict(id='s48-group-cut', property='C21', edits=[('src/symmetries.rs', '    while let Some(phi) = queue.pop_front() {\n', '    while let Some(phi) = queue.pop_front() {\n        if result.len() > 192 {\n            continue;\n        }\n')], file='src/symmetries.rs', test='''    #[test]
    fn seeded_demo() {
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        struct P(Vec<usize>);
        impl<'a> Mul<&'a P> for &'a P { type Output = P; fn mul(self, o: &'a P) -> P { P(o.0.iter().map(|&i| self.0[i]).collect()) } }
        for (n, k) in [(3, 6), (4, 24), (5, 120), (6, 720)] {
            let id = P((0..n).collect());
            let mut a = id.0.clone(); a.swap(0, 1);
            let mut b = id.0.clone(); b.rotate_left(1);
            assert_eq!(multiplicative_group(&id, &vec![P(a), P(b)]).len(), k);
        }
    }
''', needs='a net given in a cell so large that it has more than 192 symmetries', what='the list of symmetries is not a group and misses some'),
 dict(id='s49-quotient-in-floating-point', property='C20', edits=[('src/spacegroups/types.rs', '        BigRational::round(&(self / other))', '        match num_traits::ToPrimitive::to_f64(&(self / other)) {\n            Some(q) if q.is_finite() => BigRational::from_float(q.round()).unwrap(),\n            _ => BigRational::round(&(self / other)),\n        }')], main='''use rust_systre::spacegroups::types::Coord;
use num_rational::BigRational;
use num_bigint::BigInt;
fn main() {
    let q = |s: &str| BigRational::from(s.parse::<BigInt>().unwrap());
    for (a, b) in [("7", "2"), ("-7", "2"), ("100000000000000000001", "1"), ("90071992547409931", "3")] {
        let x = q(a).div_rounded(&q(b));
        assert_eq!(x, (q(a) / q(b)).round(), "{} / {}", a, b);
    }
}
''', needs='a quotient that has more digits than a floating point number', what='it is rounded to a floating point number before it is rounded to an integer'),
 dict(id='s50-chains-in-hash-order', property='C04', edits=[('src/symmetries.rs', '    for e in graph.directed_edges() {\n        generate_edge_chain', '    for e in graph.directed_edges().into_iter().collect::<HashSet<_>>() {\n        generate_edge_chain')], file='src/symmetries.rs', test="""
    type L = LabelVector3d<InputCS>;
    #[test]
    fn seeded_demo() {
        // nbo: every vertex has its four edges in one plane
        let spec = [[1, 2, 0, 0, 0], [1, 4, 0, 0, 0], [1, 5, 0, 0, 0], [1, 6, 0, 0, 0], [2, 3, 0, 0, 0], [2, 6, 0, 0, 1], [2, 4, 0, -1, 0], [3, 4, 0, 0, 0], [3, 5, 1, 0, 0], [3, 6, 0, 1, 1], [4, 5, 0, 0, -1], [5, 6, 0, 0, 0]];
        let nbo = Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, L::new(e[2], e[3], e[4]))).collect::<Vec<_>>());
        let ths = Graph::new(&[[1, 2, 0, 0, 0], [1, 3, 0, 0, 0], [2, 4, 0, 0, 0], [1, 3, 1, 0, 0], [2, 4, 0, 1, 0], [3, 4, 0, 0, 1]].iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, L::new(e[2], e[3], e[4]))).collect::<Vec<_>>());
        for g in [nbo, ths] {
            if !g.is_locally_stable() { continue; }
            let first = format!("{:?}", characteristic_edge_lists(&g));
            for _ in 0..10 { assert!(format!("{:?}", characteristic_edge_lists(&g)) == first, "edge lists come out in different orders"); }
        }
    }
""", needs='a net whose vertices all have their edges in a plane', what='the edge lists, and with them the symmetries, come out in hash order'),
]
