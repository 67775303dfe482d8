F = 'src/pgraphs.rs'
S = 'src/symmetries.rs'
VMAP = '''        let vertex_map = self.vertex_map.keys().map(|v| (
            *v,
            *self.vertex_map.get(rhs.vertex_map.get(v).unwrap()).unwrap()
        )).collect();
'''
WALK = '''        match vertex_map.get(&vsrc) {
            Some(&w) if w != vimg => return None,
            None => {
                vertex_map.insert(vsrc, vimg);
                for esrc in graph.incidences(&vsrc) {
                    let dsrc = graph.edge_vector(&esrc);
                    let dimg = transform * &dsrc;

                    match graph.edge_by_unique_delta(&vimg, &dimg) {
                        None => return None,
                        Some(eimg) => {
                            queue.push_back((esrc.tail, eimg.tail));
                            edge_map.insert(esrc, eimg);
                        }
                    };
                }
            },
            _ => {},
        };
'''
GRP = '''            if !seen.contains(&product) {
                queue.push_back(product.clone());
                seen.insert(product.clone());
                result.push(product);
            }
'''
BAD = [
 (F, 'let transform = &self.transform * &rhs.transform;', 'let transform = &rhs.transform * &self.transform;'),
 (F, '*self.vertex_map.get(rhs.vertex_map.get(v).unwrap()).unwrap()', '*rhs.vertex_map.get(self.vertex_map.get(v).unwrap()).unwrap()'),
 (F, 'self.edge_map.get(rhs.edge_map.get(e).unwrap()).unwrap().clone()', 'self.edge_map.get(self.edge_map.get(e).unwrap()).unwrap().clone()'),
 (F, 'self.edge_map.keys().map(|e| (', 'self.edge_map.keys().filter(|e| e.head <= e.tail).map(|e| ('),
 (F, '.map(|e| (e.clone(), e))\n', '.map(|e| (e.clone(), e.canonical()))\n'),
 (F, '            .flat_map(|v| graph.incidences(v))\n            .map(|e| (e.clone(), e))', '            .flat_map(|v| graph.incidences(v)).filter(|e| e.head != e.tail)\n            .map(|e| (e.clone(), e))'),
 (S, 'Some(&w) if w != vimg => return None,', 'Some(&w) if w != vimg && w == vsrc => return None,'),
 (S, 'Some(&w) if w != vimg => return None,\n', ''),
 (S, WALK, WALK.replace('None => return None,', 'None => continue,')),
 (S, WALK, WALK.replace('queue.push_back((esrc.tail, eimg.tail));', 'if esrc.tail > vsrc { queue.push_back((esrc.tail, eimg.tail)); }')),
 (S, WALK, WALK.replace('queue.push_back((esrc.tail, eimg.tail));', 'queue.push_back((esrc.tail, eimg.head));')),
 (S, WALK, WALK.replace('transform * &dsrc', 'dsrc')),
 (S, WALK, WALK.replace('&vimg, &dimg', '&vsrc, &dimg')),
 (S, WALK, WALK.replace('edge_map.insert(esrc, eimg)', 'edge_map.insert(eimg, esrc)')),
 (S, WALK, WALK.replace('for esrc in graph.incidences(&vsrc) {', 'for esrc in graph.incidences(&vsrc).into_iter().skip(1) {')),
 (S, WALK, WALK.replace('for esrc in graph.incidences(&vsrc) {', 'for esrc in graph.incidences(&vsrc) { if esrc.head == esrc.tail { continue; }')),
 (S, 'let mut queue = VecDeque::from([(*seed_src, *seed_img)]);\n\n    while let Some((vsrc, vimg)) = queue.pop_front() {', 'let mut queue = VecDeque::from([(*seed_src, *seed_img)]);\n\n    while let Some((vsrc, vimg)) = queue.pop_front() {\n        if vertex_map.len() > 100 { return None; }'),
 (S, GRP, GRP.replace('                queue.push_back(product.clone());\n', '                if queue.len() < 48 { queue.push_back(product.clone()); }\n')),
 (S, GRP, GRP.replace('                queue.push_back(product.clone());\n', '')),
 (S, GRP, GRP.replace('                result.push(product);\n', '                if result.len() < 48 { result.push(product); }\n')),
 (S, 'for psi in gens {', 'for psi in gens.iter().skip(1) {'),
 (S, 'let mut result = vec![identity.clone()];', 'let mut result = vec![];'),
 (S, 'for i in 0..edge_lists.len() {\n        if p.find', 'for i in 0..edge_lists.len() / 2 {\n        if p.find'),
 (S, 'for i in 0..edge_lists.len() {\n        if p.find', 'for i in 2..edge_lists.len() {\n        if p.find'),
 (S, 'let m = (&inv_b * &bases[i]).transpose();', 'let m = (&bases[i] * &inv_b).transpose();'),
 (S, 'let m = (&inv_b * &bases[i]).transpose();', 'let m = &inv_b * &bases[i];'),
 (S, 'if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {', 'if seeds[i] != seeds[0] {'),
 (S, 'if is_unimodular(&m) {', 'if is_unimodular(&m) && m.determinant() == BigRational::one() {'),
 (S, 'm.determinant().abs() == BigRational::one()', 'm.determinant() == BigRational::one()'),
 (S, 'let seeds: Vec<_> = map_vec(|es| es[0].head, &edge_lists);', 'let seeds: Vec<_> = map_vec(|es| es[0].tail, &edge_lists);'),
 (S, 'p.unite(&edge_lists[k], &mapped);', 'p.unite(&edge_lists[k], &edge_lists[0]);'),
 (S, 'for es in es.iter().permutations(T::dim()) {\n                result.push(es.iter().map(|&e| e.clone()).collect());\n            }', 'result.push(es);'),
 (S, 'if are_linearly_independent(&es, graph) {\n            for es', 'if are_linearly_independent(&es, graph) || es.len() > 2 {\n            for es'),
 (S, '    if result.is_empty() {\n        result = good_combinations(&graph.directed_edges(), graph);\n    }\n', ''),
 (S, 'for v in graph.vertices() {\n        for es in good', 'for v in graph.vertices().into_iter().take(1) {\n        for es in good'),
 (S, 'for v in graph.vertices() {\n        for es in good', 'for v in graph.vertices() {\n        if !result.is_empty() { break; }\n        for es in good'),
 (S, 'for e in graph.directed_edges() {\n        generate', 'for e in graph.directed_edges().into_iter().skip(1) {\n        generate'),
 (S, 'for e in graph.incidences(&edges[edges.len() - 1].tail) {', 'for e in graph.incidences(&edges[0].tail) {'),
 (S, 'basis.len() == edges.len()\n', 'basis.len() + 1 >= edges.len()\n'),
]
GOOD = [
 (F, VMAP, VMAP.replace('self.vertex_map.keys()', 'rhs.vertex_map.keys()')),
 (F, VMAP, '''        let vertex_map = rhs.vertex_map.iter()
            .map(|(v, w)| (*v, self.vertex_map[w]))
            .collect();
'''),
 (F, '''        let edge_map = graph.vertices().iter()
            .flat_map(|v| graph.incidences(v))
            .map(|e| (e.clone(), e))
            .collect();
''', '        let edge_map = graph.directed_edges().into_iter().map(|e| (e.clone(), e)).collect();\n'),
 (S, WALK, '''        if let Some(w) = vertex_map.get(&vsrc) {
            if *w != vimg { return None; }
            continue;
        }
        vertex_map.insert(vsrc, vimg);
        for esrc in graph.incidences(&vsrc) {
            let dimg = transform * &graph.edge_vector(&esrc);
            let eimg = graph.edge_by_unique_delta(&vimg, &dimg)?;
            let next = (esrc.tail, eimg.tail);
            edge_map.insert(esrc, eimg);
            queue.push_back(next);
        }
'''),
 (S, GRP, '''            if seen.insert(product.clone()) {
                result.push(product.clone());
                queue.push_back(product);
            }
'''),
 (S, 'let product = &phi * psi;', 'let product = psi * &phi;'),
 (S, 'while let Some(phi) = queue.pop_front() {\n        for psi', 'while let Some(phi) = queue.pop_back() {\n        for psi'),
 (S, 'let m = (&inv_b * &bases[i]).transpose();', 'let m = bases[i].transpose() * inv_b.transpose();'),
 (S, 'for i in 0..edge_lists.len() {\n        if p.find', 'for i in 1..edge_lists.len() {\n        if p.find'),
 (S, '''                let aff = &AffineMap::new(&m, &Vector::zero(T::dim()));
                let iso = automorphism(&graph, &seeds[0], &seeds[i], &aff);

                if let Some(iso) = iso {
''', '''                let aff = AffineMap::new(&m, &Vector::zero(T::dim()));
                if let Some(iso) = automorphism(graph, &seeds[0], &seeds[i], &aff) {
'''),
 (S, '''        if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {
            let m''', '''        if p.find(&edge_lists[i]) == p.find(&edge_lists[0]) { continue; }
        {
            let m'''),
 (S, 'm.iter().all(|x| x % BigRational::one() == BigRational::zero())\n    &&\n    m.determinant().abs() == BigRational::one()', 'm.determinant().abs() == BigRational::one() && m.iter().all(|x| (x % BigRational::one()).is_zero())'),
 (S, 'm.iter().all(|x| x % BigRational::one() == BigRational::zero())\n    &&\n    m.determinant().abs() == BigRational::one()', 'if !m.iter().all(|x| x.is_integer()) { return false; }\n    let d = m.determinant();\n    d == BigRational::one() || d == -BigRational::one()'),
 (S, '''    for v in graph.vertices() {
        for es in good_combinations(&graph.incidences(&v), graph) {
            result.push(es);
        }
    }
''', '    for v in graph.vertices() {\n        result.extend(good_combinations(&graph.incidences(&v), graph));\n    }\n'),
 (S, '''                    for k in 0..edge_lists.len() {
                        let mapped = map_vec(
                            |e| iso.edge_map.get(&e).unwrap().clone(),
                            &edge_lists[k]
                        );
                        p.unite(&edge_lists[k], &mapped);
''', '''                    for es in &edge_lists {
                        let mapped: Vec<_> = es.iter().map(|e| iso.edge_map[e].clone()).collect();
                        p.unite(es, &mapped);
'''),
 (S, '        let es = es.iter().map(|&e| e.clone()).collect::<Vec<_>>();\n        if are', '        let es: Vec<_> = es.into_iter().cloned().collect();\n        if are'),
 (S, '    let mut basis = vec![];\n    for e in edges {\n        let v: Vec<_> = graph.edge_vector(&e)\n            .into_iter().collect();\n        extend_basis(&v, &mut basis);\n    }\n    basis.len() == edges.len()', '    let mut basis = vec![];\n    for e in edges.iter().rev() {\n        let v: Vec<_> = graph.edge_vector(e).iter().cloned().collect();\n        extend_basis(&v, &mut basis);\n    }\n    edges.len() == basis.len()'),
]
