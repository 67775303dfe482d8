SEEDS = [
 dict(id='s06-vertex-order-memo', property='C01', file='src/pgraphs.rs',
  edits=[('src/pgraphs.rs', '            let vertices: Vec<_> = self.edges.iter()\n                .flat_map(|e| [e.head, e.tail])\n                .collect::<BTreeSet<_>>()\n                .into_iter()\n                .collect();\n\n            unsafe { *self.vertices.get() = Some(vertices.clone()) };\n\n            vertices', '            let vertices: Vec<_> = self.edges.iter()\n                .flat_map(|e| [e.head, e.tail])\n                .unique()\n                .collect();\n\n            unsafe { *self.vertices.get() = Some(vertices.iter().copied().sorted().collect()) };\n\n            vertices')],
  test='    fn g2(spec: &[[i32; 4]]) -> Graph<LabelVector2d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())\n    }\n    #[allow(dead_code)]\n    fn g3(spec: &[[i32; 5]]) -> Graph<LabelVector3d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())\n    }\n    #[test]\n    fn seeded_demo() {\n        let g = g2(&[[1, 3, 0, 0], [2, 2, 0, 1], [2, 3, 1, 0], [2, 3, 0, 0], [1, 1, 0, 1]]);\n        let a = g.vertices();\n        let b = g.vertices();\n        assert_eq!(a, b);\n    }\n',
  needs='a net whose sorted edges do not meet the vertices in order',
  what='the first query for the vertices answers in another order than the later ones'),
 dict(id='s07-identity-ignores-third-shift', property='C07', file='src/arithmetic/geometry.rs',
  edits=[('src/arithmetic/geometry.rs', '        self.linear_coeffs.is_identity()\n        &&\n        self.shift.coords.iter().all(|x| x.is_zero())', '        self.linear_coeffs.is_identity()\n        &&\n        self.shift.coords.iter().take(2).all(|x| x.is_zero())')],
  test='    use num_bigint::BigInt;\n    use num_rational::BigRational;\n    #[test]\n    fn seeded_demo() {\n        let r = |x: i32| BigRational::from(BigInt::from(x));\n        let m = AffineMap::<BigRational, ()>::new(&Matrix::identity(3), &Vector::new(&[r(0), r(0), r(1)]));\n        assert!(!m.is_identity());\n        let m = AffineMap::<BigRational, ()>::new(&Matrix::identity(3), &Vector::new(&[r(0), r(0), r(0)]));\n        assert!(m.is_identity());\n    }\n',
  needs='a three-dimensional translation along the third axis',
  what='it is taken for the identity'),
 dict(id='s10-collision-seen-forgotten', property='C31', file='src/pgraphs.rs',
  edits=[('src/pgraphs.rs', '            if seen.contains(&delta) {\n                to_edge.remove(&delta);\n            } else {\n                to_edge.insert(delta.clone(), e);\n                seen.insert(delta);\n            }', '            if seen.contains(&delta) {\n                to_edge.remove(&delta);\n                seen.remove(&delta);\n            } else {\n                to_edge.insert(delta.clone(), e);\n                seen.insert(delta);\n            }')],
  test='    fn g2(spec: &[[i32; 4]]) -> Graph<LabelVector2d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())\n    }\n    #[allow(dead_code)]\n    fn g3(spec: &[[i32; 5]]) -> Graph<LabelVector3d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())\n    }\n    #[test]\n    fn seeded_demo() {\n        // three parallel edges with the same vector\n        let g = g2(&[[1, 2, 0, 0], [1, 3, 0, 0], [1, 4, 0, 0], [2, 5, 0, 0], [3, 5, 0, 0], [4, 5, 0, 0],\n                     [1, 1, 0, 1], [1, 5, -1, 0], [2, 2, 0, 1], [3, 3, 0, 1], [4, 4, 0, 1], [5, 5, 0, 1]]);\n        let e = g.incidences(&1).into_iter().find(|e| e.tail == 2).unwrap();\n        let d = g.edge_vector(&e);\n        assert_eq!(g.incidences(&1).iter().filter(|e| g.edge_vector(e) == d).count(), 3);\n        assert!(g.edge_by_unique_delta(&1, &d).is_none());\n    }\n',
  needs='three edges at a vertex with the same vector',
  what='one of them is answered as the only edge with that vector'),
 dict(id='s11-reduced-basis-window', property='C18', file='src/arithmetic/linear_algebra.rs',
  edits=[('src/arithmetic/linear_algebra.rs', '            for i in 0..row {\n                Scalar::reduce_column(col, &mut basis[i], &b);\n            }', '            for i in row.saturating_sub(2)..row {\n                Scalar::reduce_column(col, &mut basis[i], &b);\n            }')],
  test='    #[test]\n    fn seeded_demo() {\n        let m = Matrix::new(4, &[\n            1i64, 0, 0, 5,\n            0, 1, 0, 7,\n            0, 0, 1, 9,\n            0, 0, 0, 2,\n        ]);\n        let b = m.reduced_basis();\n        for i in 0..3 { assert!(b[(i, 3)] >= 0 && b[(i, 3)] < 2, "{}", b[(i, 3)]); }\n    }\n',
  needs='a lattice basis of at least four rows',
  what='entries more than two rows above a pivot are not reduced, so that equal lattices have different bases'),
 dict(id='s12-multiplicity-largest-pivot', property='C19', file='src/pgraphs.rs',
  edits=[('src/pgraphs.rs', '            d *= basis[i][i];\n        }\n        Some(d.abs())', '            d = d.max(basis[i][i].abs());\n        }\n        Some(d.abs())')],
  test='    fn g2(spec: &[[i32; 4]]) -> Graph<LabelVector2d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())\n    }\n    #[allow(dead_code)]\n    fn g3(spec: &[[i32; 5]]) -> Graph<LabelVector3d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())\n    }\n    #[test]\n    fn seeded_demo() {\n        let g = g2(&[[1, 1, 2, 0], [1, 1, 0, 3]]);\n        let m = graph_component_measures(&g, &1);\n        assert_eq!(m, (1, 2, Some(6)));\n    }\n',
  needs='a component whose translation lattice has two pivots larger than one',
  what='the multiplicity is the largest pivot instead of the product'),
 dict(id='s13-coordination-old-shell-kept', property='C23', file='src/pgraphs.rs',
  edits=[('src/pgraphs.rs', '        self.last_shell = replace(&mut self.this_shell, next_shell);', '        let old = replace(&mut self.this_shell, next_shell);\n        if old.len() < 50 { self.last_shell = old; } else { self.last_shell.retain(|w| old.contains(w)); }')],
  test='    fn g2(spec: &[[i32; 4]]) -> Graph<LabelVector2d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())\n    }\n    #[allow(dead_code)]\n    fn g3(spec: &[[i32; 5]]) -> Graph<LabelVector3d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())\n    }\n    #[test]\n    fn seeded_demo() {\n        let g = g2(&[[1, 1, 1, 0], [1, 1, 0, 1]]);\n        for (k, n) in g.coordination_sequence(&1).take(20).enumerate() {\n            assert_eq!(n, 4 * (k + 1), "shell {}", k + 1);\n        }\n    }\n',
  needs='a shell with at least fifty vertices',
  what='vertices of the previous shell are counted again from then on'),
 dict(id='s14-reduction-stops-after-eight', property='C26', file='src/arithmetic/linear_algebra.rs',
  edits=[('src/arithmetic/linear_algebra.rs', '        let f = std::mem::replace(&mut v[col], Self::zero());\n        for k in (col + 1)..v.len() {\n            let a = &b[k] * &f;\n            v[k] -= a;', '        let f = std::mem::replace(&mut v[col], Self::zero());\n        for k in (col + 1)..v.len().min(col + 8) {\n            let a = &b[k] * &f;\n            v[k] -= a;')],
  test='    use num_bigint::BigInt;\n    use num_rational::BigRational;\n    #[test]\n    fn seeded_demo() {\n        let r = |x: i32| BigRational::from(BigInt::from(x));\n        let n = 11;\n        let mut d = vec![];\n        for j in 0..n { d.push(if j == 0 { r(1) } else { r(2) }); }\n        for j in 0..n { d.push(if j == 0 { r(0) } else if j == 1 { r(1) } else { r(3) }); }\n        let b = Matrix::new(n, &d).reduced_basis();\n        for j in 2..n { assert_eq!(b[(0, j)], r(-4), "entry {}", j); }\n    }\n',
  needs='rational rows with more than eight entries behind a pivot',
  what='only the first entries of a row are changed by the reduction'),
 dict(id='s15-second-order-multiplicity', property='C31', file='src/pgraphs.rs',
  edits=[('src/pgraphs.rs', '                deltas.push(v.into_iter().collect());\n            }\n            deltas.sort();', '                deltas.push(v.into_iter().collect());\n            }\n            deltas.sort();\n            deltas.dedup();')],
  test='    fn g2(spec: &[[i32; 4]]) -> Graph<LabelVector2d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())\n    }\n    #[allow(dead_code)]\n    fn g3(spec: &[[i32; 5]]) -> Graph<LabelVector3d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())\n    }\n    #[test]\n    fn seeded_demo() {\n        let g = g2(&[[1, 1, 1, 0], [1, 1, 0, 1], [2, 2, 1, 0], [2, 2, 0, 1], [1, 3, 0, 0], [1, 3, 0, 0], [1, 2, 0, 0]]);\n        // same place and same set of edge vectors, but one of them twice at the first vertex only\n        let a = g2(&[[1, 2, 0, 0], [1, 1, 1, 0], [1, 1, 0, 1], [2, 2, 1, 0], [2, 2, 0, 1], [1, 3, 0, 0], [3, 3, 1, 0], [3, 3, 0, 1]]);\n        let key = |g: &Graph<LabelVector2d<InputCS>, InputCS>, v: u32| {\n            let mut k: Vec<Vec<_>> = g.incidences(&v).iter().map(|e| g.edge_vector(e).into_iter().collect()).collect();\n            k.sort();\n            (g.position_normalized(&v).into_iter().collect::<Vec<_>>(), k)\n        };\n        for g in [g, a] {\n            let vs = g.vertices();\n            let ks: Vec<_> = vs.iter().map(|v| key(&g, *v)).collect();\n            let twice = (0..ks.len()).any(|i| (0..i).any(|j| ks[i] == ks[j]));\n            assert_eq!(g.has_second_order_collisions(), twice);\n        }\n    }\n',
  needs='two vertices in the same place whose edge vectors agree except for their multiplicity',
  what='they are reported as a second-order collision'),
 dict(id='s16-vertex-numbers-with-gaps', property='C32', file='src/pgraphs.rs',
  edits=[('src/pgraphs.rs', '        for ngb in g.incidences(&verts[i]) {\n            let j = vidcs[&ngb.tail];', '        for ngb in g.incidences(&verts[i]) {\n            let j = if ngb.tail as usize <= n { ngb.tail as usize - 1 } else { vidcs[&ngb.tail] };')],
  test='    fn g2(spec: &[[i32; 4]]) -> Graph<LabelVector2d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())\n    }\n    #[allow(dead_code)]\n    fn g3(spec: &[[i32; 5]]) -> Graph<LabelVector3d<InputCS>, InputCS> {\n        Graph::new(&spec.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())\n    }\n    #[test]\n    fn seeded_demo() {\n        let a = g2(&[[1, 2, 0, 0], [1, 3, 0, 0], [2, 3, 0, 0], [2, 3, 1, 0], [1, 2, 0, 1], [3, 4, 0, 0], [1, 4, 1, 0], [2, 4, 0, 0]]);\n        // the same net with the numbers 1, 3, 4, 6\n        let m = |v: i32| [0, 1, 3, 4, 6][v as usize];\n        let b = g2(&[[1, 2, 0, 0], [1, 3, 0, 0], [2, 3, 0, 0], [2, 3, 1, 0], [1, 2, 0, 1], [3, 4, 0, 0], [1, 4, 1, 0], [2, 4, 0, 0]].map(|[u, v, x, y]| [m(u), m(v), x, y]));\n        for v in 1..5 { assert_eq!(a.position(&v), b.position(&(m(v as i32) as u32)), "vertex {}", v); }\n    }\n',
  needs='a net whose vertex numbers have gaps, with small numbers',
  what='the equations of the barycentric placement mix up the vertices'),
 dict(id='s17-long-operator-lists-cut', property='C33', file='src/spacegroups/parse_table.rs',
  edits=[('src/spacegroups/parse_table.rs', '            settings.get_mut(&current_name)?.operators.push(op);', '            let ops = &mut settings.get_mut(&current_name)?.operators;\n            if ops.last() != Some(&op) && ops.len() < 96 { ops.push(op); }')],
  test='    #[test]\n    fn seeded_demo() {\n        let mut text = String::from("P1 x,y,z\\n");\n        for i in 0..120 { text += &format!("  x+{}/121,y,z\\n", i); }\n        let t = parse_space_group_table(text.as_bytes()).unwrap();\n        assert_eq!(t.settings["P1"].operators.len(), 120);\n    }\n',
  needs='a setting with more than 96 operators',
  what='the further operators are dropped'),
 dict(id='s18-metric-equation-left-out', property='C30', file='src/spacegroups/basics.rs',
  edits=[('src/spacegroups/basics.rs', '        for ia in 0..dim {\n            for ib in ia..dim {\n                let mut eqn', '        for ia in 0..dim {\n            for ib in (if ia == 0 { 0 } else { ia + 1 })..dim {\n                let mut eqn')],
  test='    #[test]\n    fn seeded_demo() {\n        // a four-fold rotation about the x axis fixes b = c\n        let ops = vec![AffineMap::<BigRational, ()>::from_string("x, -z, y").unwrap()];\n        let m = gram_matrix_configuration_space(&ops).unwrap();\n        assert_eq!(m.ncols.min(m.nrows), 2);\n    }\n',
  needs='an operator whose only condition on the metric comes from the second or third diagonal entry',
  what='the equations of these diagonal entries are missing, so that too many metrics are allowed'),
 dict(id='s19-generators-beyond-fourth', property='C34', file='src/spacegroups/basics.rs',
  edits=[('src/spacegroups/basics.rs', '        for b in gens {\n            let ab = (&a * b).mod_z();', '        for b in gens.iter().take(4) {\n            let ab = (&a * b).mod_z();')],
  test='    #[test]\n    fn seeded_demo() {\n        let gens: Vec<_> = ["-x,y,z", "-x,y,z", "-x,y,z", "-x,y,z", "x,-y,z"].iter()\n            .map(|s| AffineMap::<BigRational, ()>::from_string(s).unwrap()).collect();\n        assert_eq!(generate(&gens).len(), 4);\n    }\n',
  needs='more than four generators, with the later ones independent of the first',
  what='the further generators are ignored'),
]
