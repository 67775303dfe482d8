SEEDS = [
 dict(id='s21-graph-shared-between-threads', property='C02', edits=[('src/pgraphs.rs', 'impl<T, CS> Graph<T, CS>\n    where\n        T: LabelVector<CS>,\n        CS: Clone + Eq + Hash + Ord\n{\n    pub fn dim()', 'unsafe impl<T: Eq + Hash + Sync, CS: Eq + Hash + Sync> Sync for Graph<T, CS> {}\n\nimpl<T, CS> Graph<T, CS>\n    where\n        T: LabelVector<CS>,\n        CS: Clone + Eq + Hash + Ord\n{\n    pub fn dim()')], main='use rust_systre::pgraphs::*;\nuse std::marker::PhantomData;\nstruct W<T>(PhantomData<T>);\nimpl<T: Sync> W<T> { fn sync(&self) -> bool { true } }\ntrait Fallback { fn sync(&self) -> bool { false } }\nimpl<T> Fallback for W<T> {}\nfn main() {\n    assert!(W::<Vec<u8>>(PhantomData).sync());\n    assert!(!W::<Graph<LabelVector2d<InputCS>, InputCS>>(PhantomData).sync(), "a graph with unguarded memo cells can be used by two threads at once");\n}\n', needs='a client that queries one net from two threads', what='nets become shareable between threads although their hidden caches are not guarded'),
 dict(id='s23-hash-of-map-capacity', property='C05', edits=[('src/pgraphs.rs', '        self.transform.hash(state);\n', '        self.transform.hash(state);\n        self.vertex_map.capacity().hash(state);\n')], file='src/pgraphs.rs', test='    fn g2(spec: &[[i32; 4]]) -> Graph<LabelVector2d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())\n    }\n    #[allow(dead_code)]\n    fn g3(spec: &[[i32; 5]]) -> Graph<LabelVector3d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())\n    }\n    use std::collections::hash_map::DefaultHasher;\n    #[test]\n    fn seeded_demo() {\n        let g = g2(&[[1, 1, 1, 0], [1, 1, 0, 1]]);\n        let a = Automorphism::identity(&g);\n        let mut b = Automorphism::identity(&g);\n        b.vertex_map.reserve(1000);\n        let h = |x: &Automorphism<_, _>| { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() };\n        assert!(a == b);\n        assert_eq!(h(&a), h(&b));\n    }\n', needs='equal symmetries whose maps have a different history', what='their hashes differ, so that sets keep both'),
 dict(id='s24-label-accepts-longer-vector', property='C08', edits=[('src/pgraphs.rs', '        assert_eq!(v.len(), 3);', '        assert!(v.len() >= 3);')], file='src/pgraphs.rs', test='    fn g2(spec: &[[i32; 4]]) -> Graph<LabelVector2d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())\n    }\n    #[allow(dead_code)]\n    fn g3(spec: &[[i32; 5]]) -> Graph<LabelVector3d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())\n    }\n    #[test]\n    fn seeded_demo() {\n        assert!(std::panic::catch_unwind(|| LabelVector3d::<InputCS>::from_vec(&[1, 2, 3, 4])).is_err());\n        assert!(std::panic::catch_unwind(|| LabelVector3d::<InputCS>::from_vec(&[1, 2])).is_err());\n        assert_eq!(LabelVector3d::<InputCS>::from_vec(&[1, 2, 3]).to_vec(), vec![1, 2, 3]);\n    }\n', needs='a coordinate list that is longer than the label', what='it is cut silently'),
 dict(id='s25-orbits-of-unstable-nets', property='C09', edits=[('src/symmetries.rs', '    assert!(graph.is_locally_stable(), "graph must be locally stable");\n    translational_equivalences(&graph).classes(&graph.vertices())', '    translational_equivalences(&graph).classes(&graph.vertices())')], file='src/symmetries.rs', test='    use crate::pgraphs::*;\n    fn g2(spec: &[[i32; 4]]) -> Graph<LabelVector2d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())\n    }\n    #[allow(dead_code)]\n    fn g3(spec: &[[i32; 5]]) -> Graph<LabelVector3d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())\n    }\n    #[test]\n    fn seeded_demo() {\n        // two edges at vertex 1 with the same vector\n        let g = g2(&[[1, 2, 0, 0], [1, 3, 0, 0], [1, 1, 1, 0], [1, 1, 0, 1]]);\n        assert!(!g.is_locally_stable());\n        assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| translational_orbits(&g))).is_err());\n    }\n', needs='the translational orbits of a net that is not locally stable', what='they are answered from edge vectors that do not identify edges'),
 dict(id='s27-quoted-text-trimmed', property='C12', edits=[('src/io/parse_cgd_line.rs', '        map_opt(quoted_string, |f| Some(Field::Name(f.to_string()))),', '        map_opt(quoted_string, |f| Some(Field::Name(f.trim().to_string()))),')], main='use rust_systre::io::parse_cgd_line::*;\nfn main() {\n    let (_, fs) = parse_cgd_line("NAME \\" a b \\"").unwrap();\n    assert_eq!(format!("{:?}", fs[1]), "Name(\\" a b \\")");\n}\n', needs='a quoted text with blanks at its ends', what='the blanks are dropped'),
 dict(id='s28-centering-by-first-letter', property='C13', edits=[('src/spacegroups/parse_table.rs', '        match s {\n            "p"', '        match s.get(..1).unwrap_or("") {\n            "p"')], file='src/spacegroups/parse_table.rs', test='    #[test]\n    fn seeded_demo() {\n        for s in ["p1", "pp", "Fd-3m", "Ixx", "cc"] { assert!(Centering::from_string(s).is_none(), "{}", s); }\n        for s in ["p", "c", "P", "F", "I"] { assert!(Centering::from_string(s).is_some(), "{}", s); }\n    }\n', needs='a longer text that starts with the name of a centering', what='it is accepted as that centering'),
 dict(id='s29-edge-orbits-reversed', property='C22', edits=[('src/pgraphs.rs', '                p.unite(e, &phi.edge_map.get(e).unwrap().canonical())', '                p.unite(e, &phi.edge_map.get(e).unwrap())')], file='src/pgraphs.rs', test='    fn g2(spec: &[[i32; 4]]) -> Graph<LabelVector2d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())\n    }\n    #[allow(dead_code)]\n    fn g3(spec: &[[i32; 5]]) -> Graph<LabelVector3d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())\n    }\n    #[test]\n    fn seeded_demo() {\n        let g = g2(&[[1, 2, 0, 0], [2, 3, 0, 0], [1, 1, 1, 0], [3, 3, 1, 0], [2, 2, 0, 1], [1, 3, -1, -1]]);\n        let orbits = g.edge_orbits();\n        for phi in g.symmetries() {\n            for e in &g.edges {\n                let f = phi.edge_map.get(e).unwrap().canonical();\n                let i = orbits.iter().position(|o| o.contains(e));\n                assert!(i.is_some() && i == orbits.iter().position(|o| o.contains(&f)), "{:?} {:?}", e, f);\n            }\n        }\n    }\n', needs='two edges that are related only by a symmetry that reverses the stored direction', what='they are listed in different orbits'),
 dict(id='s31-determinant-sign', property='C25', edits=[('src/arithmetic/linear_algebra.rs', '                if (bs.len() - i) % 2 > 0 {', '                if bs.len() % 2 > 0 {')], file='src/arithmetic/linear_algebra.rs', test='    #[test]\n    fn seeded_demo() {\n        use num_bigint::BigInt;\n        use num_rational::BigRational;\n        let r = |x: i32| BigRational::from(BigInt::from(x));\n        // all permutation matrices of size 4 and 5 reached by transpositions\n        for n in [4usize, 5] {\n            for a in 0..n { for b in 0..a { for c in 0..n { for d in 0..c {\n                let mut p: Vec<usize> = (0..n).collect();\n                p.swap(a, b); p.swap(c, d);\n                let mut m = Matrix::<BigRational>::identity(n);\n                for i in 0..n { for j in 0..n { m[(i, j)] = if p[i] == j { r(1) } else { r(0) }; } }\n                let inv = (0..n).map(|i| (0..i).filter(|&j| p[j] > p[i]).count()).sum::<usize>();\n                assert_eq!(m.determinant(), r(if inv % 2 == 0 { 1 } else { -1 }), "{:?}", p);\n            } } } }\n        }\n    }\n', needs='a matrix of size four or more whose rows are inserted in the middle of the basis', what='the determinant has the wrong sign'),
 dict(id='s32-long-rows-cut', property='C28', edits=[('src/arithmetic/matrices.rs', '        self.data[(i * m)..(i * m + m)].to_vec()', '        self.data[(i * m)..].iter().take(m.min(6)).cloned().collect()')], main='use rust_systre::arithmetic::matrices::Matrix;\nfn main() {\n    let d: Vec<i64> = (0..24).collect();\n    let m = Matrix::new(8, &d);\n    for i in 0..3 { assert_eq!(m.get_row(i), d[8 * i..8 * i + 8].to_vec()); }\n}\n', needs='a matrix with more than six columns', what='rows are cut to six entries'),
]
