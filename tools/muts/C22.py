F = 'src/pgraphs.rs'
S = 'src/symmetries.rs'
RAW = '''            if let Some(iso) = automorphism(&graph, &verts[0], &v, id) {
                for w in &verts {
                    p.unite(&w, &iso.vertex_map[w]);
                }
            }
'''
BAD = [
 (F, 'for phi in self.symmetries() {\n            for v in self.vertices() {', 'for phi in self.symmetries().into_iter().take(2) {\n            for v in self.vertices() {'),
 (F, '            for v in self.vertices() {\n                p.unite(&v,', '            for v in self.vertices().into_iter().skip(1) {\n                p.unite(&v,'),
 (F, 'p.unite(e, &phi.edge_map.get(e).unwrap().canonical())', 'p.unite(e, phi.edge_map.get(e).unwrap())'),
 (F, 'p.classes(&self.vertices())', 'p.classes(&self.vertices()[1..].to_vec())'),
 (F, 'p.unite(e, &phi.edge_map.get(e).unwrap().canonical())', 'if e.head != e.tail { p.unite(e, &phi.edge_map.get(e).unwrap().canonical()) }'),
 (S, '        if p.find(&verts[0]) != p.find(&v) {\n', '        if p.find(&verts[0]) != p.find(&v) && v % 2 == 0 {\n'),
 (S, '        if p.find(&verts[0]) != p.find(&v) {\n', '        if p.find(v) == *v && p.find(&verts[0]) != p.find(&v) {\n'),
 (S, RAW, RAW.replace('for w in &verts {', 'for w in verts.iter().skip(1) {')),
 (S, '    translational_equivalences(&graph).classes(&graph.vertices())\n', '    raw_translational_equivalences(&graph).classes(&graph.vertices())\n'),
 (S, 'translational_orbits(&graph)[0].len() == 1\n', 'translational_orbits(&graph).len() == 1\n'),
 (S, 'translational_orbits(&graph)[0].len() == 1\n', 'raw_translational_orbits(&graph)[0].len() == 1\n'),
 (S, 'if graph.is_stable() {\n        false', 'if graph.is_stable() {\n        true'),
 (S, 'orbit.iter().skip(1).any(|v| mod1(&graph.position(v)) == p0)', 'orbit.iter().any(|v| mod1(&graph.position(v)) == p0)'),
 (S, 'orbit.iter().skip(1).any(|v| mod1(&graph.position(v)) == p0)', 'orbit.iter().skip(2).any(|v| mod1(&graph.position(v)) == p0)'),
 (S, '''        let p0 = mod1(&graph.position(&orbit[0]));

        orbit.iter().skip(1).any(|v| mod1(&graph.position(v)) == p0)''', '''        let p0 = graph.position(&orbit[0]);

        orbit.iter().skip(1).any(|v| graph.position(v) == p0)'''),
 (S, '.filter(|v| mod1(&graph.position(v)) == p0)', '.filter(|v| mod1(&graph.position(v)) != p0)'),
 (S, 'if orbit.iter().skip(1).all(|v| mod1(&graph.position(v)) != p0) {', 'if !orbit.iter().skip(1).all(|v| mod1(&graph.position(v)) != p0) {'),
 (S, '            for w in &graph.vertices() {\n                p.unite(w, &iso.vertex_map[w]);', '            for w in orbit {\n                p.unite(w, &iso.vertex_map[w]);'),
 (S, 'for b in extended_translation_basis(graph, &orbit) {', 'for b in extended_translation_basis(graph, &orbit).into_iter().take(1) {'),
]
GOOD = [
 (S, '''    if graph.is_stable() {
        false
    } else {
        let orbit = &raw_translational_orbits(&graph)[0];
        let p0 = mod1(&graph.position(&orbit[0]));

        orbit.iter().skip(1).any(|v| mod1(&graph.position(v)) == p0)
    }''', '''    if graph.is_stable() {
        return false;
    }
    let orbit = &raw_translational_orbits(&graph)[0];
    let p0 = mod1(&graph.position(&orbit[0]));
    for i in 1..orbit.len() {
        if p0 == mod1(&graph.position(&orbit[i])) {
            return true;
        }
    }
    false'''),
 (F, 'p.unite(e, &phi.edge_map.get(e).unwrap().canonical())', 'let img = phi.edge_map.get(e).unwrap().canonical(); p.unite(&img, e)'),
 (F, '        for phi in self.symmetries() {\n            for v in self.vertices() {\n                p.unite(&v, &phi.vertex_map.get(&v).unwrap())', '        let vs = self.vertices();\n        for phi in self.symmetries().iter() {\n            for v in &vs {\n                p.unite(v, &phi.vertex_map[v])'),
 (S, RAW, '''            match automorphism(&graph, &verts[0], &v, id) {
                None => continue,
                Some(iso) => verts.iter().for_each(|w| p.unite(w, iso.vertex_map.get(w).unwrap())),
            }
'''),
 (S, '    for v in &verts {\n        if p.find', '    for v in &verts[1..] {\n        if p.find'),
 (S, 'translational_orbits(&graph)[0].len() == 1\n', 'translational_orbits(&graph)[0].len() <= 1\n'),
 (S, 'translational_orbits(&graph)[0].len() == 1\n', 'translational_orbits(&graph).first().unwrap().len() == 1\n'),
 (S, 'if p.find(&verts[0]) != p.find(&v) {', 'if p.find(v) != p.find(&verts[0]) {'),
 #(S, 'if p.find(&verts[0]) != p.find(&v) {', 'if *v != verts[0] {'),
]
