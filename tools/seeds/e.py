"""planted bugs: limits no test reaches"""
SEEDS = [
 dict(id='s51-euclid-thirty-rounds', property='C26', edits=[('src/arithmetic/linear_algebra.rs', '    while !a_next.is_zero() {\n        let q', '    for _ in 0..30 {\n        if a_next.is_zero() {\n            break;\n        }\n        let q')], main='''use rust_systre::arithmetic::linear_algebra::extend_basis;
fn main() {
    let (mut a, mut b) = (1i64, 1i64);
    for n in 0..38 {
        let mut bs = vec![vec![b, 0]];
        extend_basis(&[a, 1], &mut bs);
        extend_basis(&[0, 1], &mut bs);
        // neighbours in the Fibonacci sequence have no common divisor: the lattice is everything
        assert!(bs.len() == 2 && bs[0][0].abs() == 1 && bs[1] .iter().map(|x| x.abs()).collect::<Vec<_>>() == vec![0, 1], "{} {:?}", n, bs);
        (a, b) = (b, a + b);
    }
}
''', needs='entries for which the Euclidean algorithm makes more than thirty rounds', what='the pivot column is not cleared'),
 dict(id='s52-image-edges-cut', property='C24', edits=[('src/symmetries.rs', '        for e in graph.directed_edges() {\n            if e == e.canonical() {\n                let head', '        for e in graph.directed_edges().into_iter().take(200) {\n            if e == e.canonical() {\n                let head')], file='src/symmetries.rs', test='''    #[test]
    fn seeded_demo() {
        // a row of n copies of one cell: ladders of two kinds of rungs and a link between them
        for n in [2u32, 3, 60] {
            let l = |x, y| LabelVector2d::<InputCS>::new(x, y);
            let mut es = vec![];
            for i in 1..=n {
                let (next, sh) = if i == n { (1, 1) } else { (i + 1, 0) };
                es.push(Edge::new(i, next, l(sh, 0)));
                es.push(Edge::new(n + i, n + next, l(sh, 0)));
                es.push(Edge::new(i, n + i, l(0, 0)));
                es.push(Edge::new(n + i, 2 * n + i, l(0, 0)));
                es.push(Edge::new(2 * n + i, i, l(0, 1)));
            }
            let g = Graph::new(&es);
            let h: Graph<LabelVector2d<InputCS>, InputCS> = minimal_image(&g).unwrap();
            assert_eq!((h.vertices().len(), h.directed_edges().len()), (3, 10), "{} copies", n);
        }
    }
''', needs='a net with more than a hundred edges in its cell', what='edges are missing in the minimal image'),
 dict(id='s53-lattice-from-first-vectors', property='C29', edits=[('src/spacegroups/lattices.rs', '    for d in vectors {\n        for x in d {', '    for d in vectors.iter().take(48) {\n        for x in d {')], main='''use rust_systre::spacegroups::lattices::rational_lattice_basis;
use num_rational::BigRational;
use num_bigint::BigInt;
fn main() {
    let q = |a: i64, b: i64| BigRational::new(BigInt::from(a), BigInt::from(b));
    for n in [3usize, 20, 47, 60] {
        let mut vs = vec![vec![q(1, 1), q(0, 1)], vec![q(0, 1), q(1, 1)]];
        for i in 0..n { vs.push(vec![q(i as i64, 2), q(0, 1)]); }
        vs.push(vec![q(0, 1), q(1, 3)]);
        let b = rational_lattice_basis(&vs);
        assert_eq!(b.len(), 2);
        let det = &b[0][0] * &b[1][1] - &b[0][1] * &b[1][0];
        assert!(det == q(1, 6) || det == q(-1, 6), "{} vectors: {}", n, det);
    }
}
''', needs='more than 48 vectors, a new denominator in one of the later ones', what='the later vectors are rounded to the common denominator of the first'),

 dict(id='s55-repeated-axis', property='C14', edits=[('src/spacegroups/parse_operator.rs', '            Axis::Z => row[2] = q.checked_add(&row[2])?,', '            Axis::Z => row[2] = if row[2] == Ratio::new(0, 1) { q } else { row[2] },')], main="""use rust_systre::spacegroups::parse_operator::parse_operator;
use num_rational::Ratio;
fn main() {
    for (s, z) in [("x,y,z", 1), ("x,y,z+z", 2), ("x,y,2z-z", 1), ("x,y,-z-2z+1/2", -3)] {
        let (_, (rows, _)) = parse_operator(s).unwrap();
        assert_eq!(rows[2][2], Ratio::new(z, 1), "{}", s);
    }
}
""", needs='an operator that names the third axis twice in one coordinate', what='only the first of the two terms counts'),
]
