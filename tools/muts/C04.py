G = 'src/pgraphs.rs'
S = 'src/symmetries.rs'
P = 'src/partitions.rs'
B = 'src/spacegroups/basics.rs'
MG = '''    let mut seen = HashSet::from([identity.clone()]);
    let mut result = vec![identity.clone()];
    let mut queue = VecDeque::from([identity.clone()]);

    while let Some(phi) = queue.pop_front() {
        for psi in gens {
            let product = &phi * psi;
            if !seen.contains(&product) {
                queue.push_back(product.clone());
                seen.insert(product.clone());
                result.push(product);
            }
        }
    }
    result
}'''
VS = '''                .flat_map(|e| [e.head, e.tail])
                .collect::<BTreeSet<_>>()
                .into_iter()
                .collect();'''
NEW = '''            .collect::<HashSet<_>>()
            .into_iter()
            .sorted()
            .collect();'''
INC = 'let mut incidences = BTreeMap::new();'
DE = '''        self.vertices().iter().flat_map(|v| self.incidences(v)).collect()'''
CL = '''        let mut class_for_rep = HashMap::new();
        let mut classes = vec![];

        for e in elms {
            let rep = self.find(e);
            if let Some(cl) = class_for_rep.get(&rep) {
                let class: &mut Vec<_> = &mut classes[*cl];
                class.push(e.clone());
            } else {
                class_for_rep.insert(rep, classes.len());
                classes.push(vec![e.clone()]);
            }
        }

        classes'''
GEN = '''    let mut seen = HashSet::new();
    seen.insert(id.clone());
    let mut result = vec![id];
    let mut i = 0;

    while i < result.len() {
        let a = result[i].clone();
        i += 1;

        for b in gens {
            let ab = (&a * b).mod_z();
            if !seen.contains(&ab) {
                seen.insert(ab.clone());
                result.push(ab);
            }
        }
    }

    result'''
VV = 'verts.iter().enumerate().map(|(i, &e)| (e, i)).collect();'
HC = '''    pub fn vertices(&self) -> Vec<Vertex> {'''
BAD = [
 (S, MG, '''    let mut result = HashSet::from([identity.clone()]);
    let mut queue = VecDeque::from([identity.clone()]);

    while let Some(phi) = queue.pop_front() {
        for psi in gens {
            let product = &phi * psi;
            if !result.contains(&product) {
                queue.push_back(product.clone());
                result.insert(product);
            }
        }
    }
    result.into_iter().collect()
}'''),
 (S, MG, MG.replace('    result\n}', '    seen.drain().collect()\n}')),
 (S, MG, MG.replace('    result\n}', '    let mut out = Vec::with_capacity(result.len());\n    for x in &seen { out.push(x.clone()); }\n    out\n}')),
 (S, MG, MG.replace('    result\n}', '    let mut out = Vec::new();\n    out.extend(seen);\n    out\n}')),
 (S, MG, MG.replace('    result\n}', '    let mut out = Vec::new();\n    seen.iter().for_each(|x| out.push(x.clone()));\n    out\n}')),
 (S, MG, MG.replace('    result\n}', '    while let Some(x) = seen.iter().next().cloned() { seen.remove(&x); result.push(x); }\n    result\n}')),
 (S, MG, '''    let mut seen = HashSet::from([identity.clone()]);
    let mut frontier = HashSet::from([identity.clone()]);
    let mut result = vec![identity.clone()];
    while !frontier.is_empty() {
        let mut next = HashSet::new();
        for phi in &frontier {
            for psi in gens {
                let product = phi * psi;
                if seen.insert(product.clone()) {
                    next.insert(product.clone());
                    result.push(product);
                }
            }
        }
        frontier = next;
    }
    result
}'''),
 (G, NEW, NEW.replace('            .sorted()\n', '')),
 (G, NEW, NEW.replace('.sorted()', '.sorted_by_key(|e| e.head)')),
 (G, NEW, NEW.replace('.sorted()', '.sorted_by_key(|e| (e.head, e.tail))')),
 (G, NEW, NEW.replace('.sorted()', '.sorted_by(|a, b| a.head.cmp(&b.head).then(a.tail.cmp(&b.tail)))')),
 (G, VS, VS.replace('BTreeSet', 'HashSet')),
 (G, VS, VS.replace('collect::<BTreeSet<_>>()', 'collect::<HashSet<_>>()').replace('.into_iter()', '.into_iter().take(1000)')),
 [(G, 'incidences: UnsafeCell<BTreeMap<Vertex, Vec<Edge<T, CS>>>>', 'incidences: UnsafeCell<HashMap<Vertex, Vec<Edge<T, CS>>>>'),
  (G, 'incidences: UnsafeCell::new(BTreeMap::new())', 'incidences: UnsafeCell::new(HashMap::new())'),
  (G, INC, 'let mut incidences = HashMap::new();'), (G, VS, '''                .flat_map(|e| [e.head, e.tail])
                .collect::<BTreeSet<_>>()
                .into_iter()
                .collect();'''), (G, DE, '''        self.incidences(&self.vertices()[0]);
        unsafe { (*self.incidences.get()).values().flatten().cloned().collect() }''')],
 (P, CL, '''        let mut m: HashMap<T, Vec<T>> = HashMap::new();
        for e in elms { m.entry(self.find(e)).or_insert_with(Vec::new).push(e.clone()); }
        m.into_values().collect()'''),
 (P, CL, '''        let mut m: HashMap<T, Vec<T>> = HashMap::new();
        for e in elms { m.entry(self.find(e)).or_default().push(e.clone()); }
        let mut r: Vec<Vec<T>> = m.into_iter().map(|(_, v)| v).collect();
        r.sort_by_key(|v| v.len());
        r'''),
 (B, GEN, GEN.replace('    result', '    result.clear();\n    result.extend(seen.into_iter());\n    result', 1) if False else GEN[:-len('    result')] + '    seen.into_iter().collect()'),
 (B, GEN, GEN[:-len('    result')] + '    let mut todo = vec![];\n    for x in seen.iter() { if *x != result[0] { todo.push(x.clone()); } }\n    todo.insert(0, result[0].clone());\n    todo'),
 (G, HC, '''    pub fn numbering(&self) -> BTreeMap<Vertex, usize> {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        s.into_iter().enumerate().map(|(i, v)| (v, i)).collect()
    }

    pub fn vertices(&self) -> Vec<Vertex> {'''),
 (G, HC, '''    pub fn numbering(&self) -> BTreeMap<Vertex, usize> {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        let mut r = BTreeMap::new();
        let mut n = 0;
        for v in s { n += 1; r.insert(v, n); }
        r
    }

    pub fn vertices(&self) -> Vec<Vertex> {'''),
 (G, HC, '''    pub fn numbering(&self) -> BTreeMap<Vertex, usize> {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        let mut r = BTreeMap::new();
        for v in &s { let k = r.len(); r.insert(*v, k); }
        r
    }

    pub fn vertices(&self) -> Vec<Vertex> {'''),
 (G, HC, '''    pub fn any_vertex(&self) -> Option<Vertex> {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        s.into_iter().next()
    }

    pub fn vertices(&self) -> Vec<Vertex> {'''),
 (G, HC, '''    pub fn stamp(&self) -> bool { std::time::SystemTime::now().elapsed().unwrap().as_nanos() % 2 == 0 }
    pub fn key(&self) -> usize { self as *const Self as usize }

    pub fn vertices(&self) -> Vec<Vertex> {'''),
 (G, 'self.vertex_map.iter().sorted().collect::<Vec<_>>().hash(state)', 'self.vertex_map.iter().collect::<Vec<_>>().hash(state)'),
 (G, HC, '''    fn tails(&self, v: &Vertex) -> HashSet<Vertex> { self.incidences(v).iter().map(|e| e.tail).collect() }
    fn list(s: &HashSet<Vertex>) -> Vec<Vertex> { let mut r = vec![]; for x in s { r.push(*x); } r }
    pub fn neighbours(&self, v: &Vertex) -> Vec<Vertex> { Self::list(&self.tails(v)) }

    pub fn vertices(&self) -> Vec<Vertex> {'''),
 (G, HC, '''    pub fn text(&self) -> String {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        let mut r = String::new();
        for v in &s { r.push_str(&format!("{} ", v)); }
        r
    }

    pub fn vertices(&self) -> Vec<Vertex> {'''),
 (G, HC, '''    pub fn text(&self) -> String {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        s.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
    }

    pub fn vertices(&self) -> Vec<Vertex> {'''),
 # orbits / representatives from a set
 (S, '''    translational_equivalences(&graph).classes(&graph.vertices())''', '''    let vs: HashSet<_> = graph.vertices().into_iter().collect();
    translational_equivalences(&graph).classes(&vs.into_iter().collect::<Vec<_>>())'''),
 (S, '''        for e in graph.directed_edges() {
            if e == e.canonical() {''', '''        for e in graph.directed_edges().into_iter().collect::<HashSet<_>>() {
            if e == e.canonical() {''') if False else
 (S, '''    for v in graph.vertices() {
        for es in good_combinations(&graph.incidences(&v), graph) {''', '''    for v in graph.vertices().into_iter().collect::<HashSet<_>>() {
        for es in good_combinations(&graph.incidences(&v), graph) {'''),
 (S, '''    for e in graph.directed_edges() {
        generate_edge_chain_extensions(vec![e], graph, &mut result);''', '''    let es: HashSet<_> = graph.directed_edges().into_iter().collect();
    for e in es {
        generate_edge_chain_extensions(vec![e], graph, &mut result);'''),
 (S, '''            for w in &verts {
                    p.unite(&w, &iso.vertex_map[w]);''', '''            for w in &verts {
                    p.unite(&w, &iso.vertex_map[w]);''') if False else
 (S, '''        .map(|v| automorphism(&graph, &orbit[0], &v, &id).unwrap())
        .collect::<Vec<_>>()''', '''        .map(|v| automorphism(&graph, &orbit[0], &v, &id).unwrap())
        .collect::<HashSet<_>>().into_iter().collect()'''),
 (G, '''        let mut next_shell = HashSet::new();

        for (vertex, shift) in &self.this_shell {''', '''        let mut next_shell = HashSet::new();
        for (vertex, shift) in self.this_shell.iter().take(1000) {'''),
]
GOOD = [
 (S, 'let verts = graph.vertices();', 'let verts: Vec<_> = graph.vertices().into_iter().collect::<HashSet<_>>().into_iter().collect();'),
 (S, MG, MG.replace('    result\n}', '    assert_eq!(result.len(), seen.len());\n    result\n}')),
 (S, MG, MG.replace('            if !seen.contains(&product) {\n                queue.push_back(product.clone());\n                seen.insert(product.clone());', '            if seen.insert(product.clone()) {\n                queue.push_back(product.clone());')),
 (G, NEW, '''            .collect::<BTreeSet<_>>()
            .into_iter()
            .collect();'''),
 (G, NEW, NEW.replace('.sorted()', '.sorted_by(|a, b| a.cmp(b))')),
 (G, NEW, NEW.replace('.sorted()', '.sorted_by_key(|e| e.clone())')),
 (G, NEW, NEW.replace('.sorted()', '.sorted_unstable()')),
 (G, NEW, NEW.replace('.sorted()', '.sorted_by(|a, b| a.head.cmp(&b.head).then_with(|| a.cmp(b)))')),
 [(G, 'let edges: Vec<Edge<T, CS>> = raw_edges', 'let mut edges: Vec<Edge<T, CS>> = raw_edges'), (G, NEW, NEW.replace('            .sorted()\n', '') + '\n        edges.sort();')],
 [(G, 'let edges: Vec<Edge<T, CS>> = raw_edges', 'let mut edges: Vec<Edge<T, CS>> = raw_edges'), (G, NEW, NEW.replace('            .sorted()\n', '') + '\n        edges.as_mut_slice().sort_unstable_by(|a, b| a.cmp(b));')],
 [(G, 'let edges: Vec<Edge<T, CS>> = raw_edges', 'let mut edges: Vec<Edge<T, CS>> = raw_edges'), (G, NEW, '            .collect();\n        edges.sort();\n        edges.dedup();')],
 (G, VS, VS.replace('BTreeSet', 'HashSet').replace('.into_iter()', '.into_iter().sorted()')),
 [(G, 'incidences: UnsafeCell<BTreeMap<Vertex, Vec<Edge<T, CS>>>>', 'incidences: UnsafeCell<HashMap<Vertex, Vec<Edge<T, CS>>>>'),
  (G, 'incidences: UnsafeCell::new(BTreeMap::new())', 'incidences: UnsafeCell::new(HashMap::new())'),
  (G, INC, 'let mut incidences = HashMap::new();')],
 (P, CL, '''        let mut m: HashMap<T, Vec<usize>> = HashMap::new();
        for (i, e) in elms.iter().enumerate() { m.entry(self.find(e)).or_default().push(i); }
        let mut r: Vec<Vec<usize>> = m.into_values().collect();
        r.sort();
        r.into_iter().map(|v| v.into_iter().map(|i| elms[i].clone()).collect()).collect()'''),
 (P, CL, '''        let mut m: HashMap<T, Vec<usize>> = HashMap::new();
        for (i, e) in elms.iter().enumerate() { m.entry(self.find(e)).or_default().push(i); }
        let mut r: Vec<Vec<usize>> = m.into_values().collect();
        r.sort_by_key(|v| v[0]);
        r.into_iter().map(|v| v.into_iter().map(|i| elms[i].clone()).collect()).collect()'''),
 (P, CL, '''        let mut m: HashMap<T, Vec<T>> = HashMap::new();
        let mut order = vec![];
        for e in elms {
            let r = self.find(e);
            if !m.contains_key(&r) { order.push(r.clone()); }
            m.entry(r).or_default().push(e.clone());
        }
        order.iter().map(|r| m.remove(r).unwrap()).collect()'''),
 (B, GEN, GEN.replace('if !seen.contains(&ab) {\n                seen.insert(ab.clone());', 'if seen.insert(ab.clone()) {')),
 (G, HC, '''    pub fn numbering(&self) -> BTreeMap<Vertex, usize> {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        s.into_iter().sorted().enumerate().map(|(i, v)| (v, i)).collect()
    }
    pub fn nr(&self) -> usize {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        let mut n = 0;
        for v in &s { if *v > 2 { n += 1; } }
        n + s.iter().filter(|v| **v < 3).count()
    }
    pub fn top(&self) -> Vertex {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        let mut best = 0;
        for v in &s { if *v > best { best = *v; } }
        let mut r = vec![];
        r.push(best);
        best.max(*s.iter().max().unwrap())
    }
    pub fn tops(&self) -> Vec<Vertex> {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        let mut best = 0;
        for v in &s { if *v > best { best = *v; } }
        let mut r = vec![];
        r.push(best);
        r
    }
    pub fn lists(&self) -> BTreeMap<Vertex, Vec<Vertex>> {
        let s: HashSet<Vertex> = self.edges.iter().map(|e| e.head).collect();
        let mut m = BTreeMap::new();
        for v in &s { let mut t = vec![]; t.push(*v); t.push(v + 1); m.insert(*v, t); }
        m
    }

    pub fn vertices(&self) -> Vec<Vertex> {'''),
 (G, '''        for (vertex, shift) in &self.this_shell {
            for e in self.graph.incidences(&vertex) {''', '''        for (vertex, shift) in self.this_shell.iter() {
            let es = self.graph.incidences(&vertex);
            for e in es.iter() {'''),
 (G, '''        for (vertex, shift) in &self.this_shell {''', '''        let shell: Vec<_> = self.this_shell.iter().cloned().collect();
        for (vertex, shift) in &shell {'''),
 (G, '''        let mut next_shell = HashSet::new();

        for (vertex, shift) in &self.this_shell {
            for e in self.graph.incidences(&vertex) {
                let w = (e.tail, e.shift + *shift);

                if !self.last_shell.contains(&w) &&
                    !self.this_shell.contains(&w)
                {
                    next_shell.insert(w);
                }
            }
        }
''', '''        let next_shell: HashSet<_> = self.this_shell.iter()
            .flat_map(|(v, s)| self.graph.incidences(v).into_iter().map(move |e| (e.tail, e.shift + *s)))
            .filter(|w| !self.last_shell.contains(w) && !self.this_shell.contains(w))
            .collect();
'''),
 (G, 'self.vertex_map.iter().sorted().collect::<Vec<_>>().hash(state)', 'let mut v: Vec<_> = self.vertex_map.iter().collect();\n        v.sort();\n        v.hash(state)'),
 (G, 'self.vertex_map.iter().sorted().collect::<Vec<_>>().hash(state)', 'let v: BTreeMap<_, _> = self.vertex_map.iter().collect();\n        v.hash(state)'),
 (G, 'self.vertex_map.iter().sorted().collect::<Vec<_>>().hash(state)', 'self.vertex_map.iter().sorted_by_key(|p| p.0).collect::<Vec<_>>().hash(state)'),
 (G, 'self.vertex_map.iter().sorted().collect::<Vec<_>>().hash(state)', 'let mut ks: Vec<_> = self.vertex_map.keys().copied().collect();\n        ks.sort_unstable();\n        for k in ks { k.hash(state); self.vertex_map[&k].hash(state); }'),
 (S, '''        for i in 0..orbits.len() {''', '''        let sizes: HashSet<usize> = orbits.iter().map(|o| o.len()).collect();
        assert!(sizes.len() <= orbits.len());
        assert!(sizes.iter().all(|n| *n > 0));
        for i in 0..orbits.len() {'''),
]
