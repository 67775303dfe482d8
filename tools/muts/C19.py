F = 'src/pgraphs.rs'
INS = '''            if !shifts.contains_key(&e.tail) {
                shifts.insert(e.tail, shifts[&v] + e.shift);
                queue.push_back(e.tail);
            }
'''
EM = '''            let e = e.canonical();
            if !seen.contains(&e) {
                let shift = shifts[&e.head] + e.shift - shifts[&e.tail];
                result.push(Edge::new(e.head, e.tail, shift));
                seen.insert(e);
            }
'''
SN = '''            if !seen.contains(&v) {
                for e in traverse_with_shift_adjustments(&self, &v) {
                    seen.insert(e.head);
                    seen.insert(e.tail);
                    edges.push(e);
                }
            }
'''
CONN = '''        if let Some(v0) = self.vertices().first() {
            let (size, _, multiplicity) = graph_component_measures(self, v0);
            size == self.vertices().len() && multiplicity == Some(1)
        } else {
            true
        }
'''
MULT = '''        let mut d: i32 = 1;
        for i in 0..basis.len() {
            d *= basis[i][i];
        }
        Some(d.abs())
'''
BAD = [
 (F, 'shifts.insert(e.tail, shifts[&v] + e.shift);', 'shifts.insert(e.tail, shifts[&v] - e.shift);'),
 (F, 'shifts.insert(e.tail, shifts[&v] + e.shift);', 'shifts.insert(e.tail, e.shift);'),
 (F, 'shifts.insert(e.tail, shifts[&v] + e.shift);', 'shifts.insert(e.tail, shifts[v0] + e.shift);'),
 (F, 'let shift = shifts[&e.head] + e.shift - shifts[&e.tail];', 'let shift = shifts[&e.tail] + e.shift - shifts[&e.head];'),
 (F, 'let shift = shifts[&e.head] + e.shift - shifts[&e.tail];', 'let shift = shifts[&v] + e.shift - shifts[&e.tail];'),
 (F, INS, INS.replace('                queue.push_back(e.tail);\n', '')),
 (F, INS, INS.replace('queue.push_back(e.tail);', 'if e.tail > v { queue.push_back(e.tail); }')),
 (F, INS, '''            shifts.insert(e.tail, shifts[&v] + e.shift);
            if !seen.contains(&e.canonical()) { queue.push_back(e.tail); }
'''),
 (F, EM, EM.replace('if !seen.contains(&e) {', 'if !seen.contains(&(e.head, e.tail)) {').replace('seen.insert(e)', 'seen.insert((e.head, e.tail))')),
 (F, EM, EM.replace('if !seen.contains(&e) {', 'if !seen.contains(&e) && e.head != e.tail {')),
 (F, EM, EM.replace('if !seen.contains(&e) {', 'if !seen.contains(&e) && (e.head == v || e.tail > v) {')),
 (F, 'while let Some(v) = queue.pop_front() {\n        for e in g.incidences(&v) {\n            if !shifts', 'while let Some(v) = queue.pop_front() {\n        if queue.len() > 64 { break; }\n        for e in g.incidences(&v) {\n            if !shifts'),
 (F, SN, SN.replace('                    seen.insert(e.tail);\n', '')),
 (F, SN, SN.replace('                    seen.insert(e.head);\n', '')),
 (F, SN, SN.replace('if !seen.contains(&v) {', 'if !seen.contains(&v) && !self.incidences(&v).iter().all(|e| e.head == e.tail) {')),
 (F, SN, SN.replace('if !seen.contains(&v) {', 'if seen.is_empty() {')),
 (F, '        vertices.insert(e.head);\n        vertices.insert(e.tail);\n', '        vertices.insert(e.head);\n'),
 (F, 'let size = vertices.len();', 'let size = vertices.len() + basis.len() - basis.len().min(1) * basis.len();'),
 (F, 'let rank = basis.len();', 'let rank = basis.len().max(1);'),
 (F, MULT, MULT.replace('d.abs()', 'd')),
 (F, MULT, MULT.replace('basis[i][i]', 'basis[i][0]')),
 (F, MULT, MULT.replace('0..basis.len()', '1..basis.len()')),
 (F, 'let multiplicity = if rank == T::dim() {', 'let multiplicity = if rank > 0 {'),
 (F, 'let multiplicity = if rank == T::dim() {', 'let multiplicity = if rank + 1 >= T::dim() {'),
 (F, CONN, CONN.replace('multiplicity == Some(1)', 'multiplicity.is_some()')),
 (F, CONN, CONN.replace('size == self.vertices().len() && ', '')),
 (F, CONN, CONN.replace('            true', '            false')),
 (F, CONN, CONN.replace('multiplicity == Some(1)', 'multiplicity != Some(2)')),
 (F, 'for e in &edges {\n        extend_basis(&e.shift.to_vec(), &mut basis);', 'for e in edges.iter().skip(1) {\n        extend_basis(&e.shift.to_vec(), &mut basis);'),
 (F, 'for e in &edges {\n        extend_basis(&e.shift.to_vec(), &mut basis);', 'for e in edges.iter().filter(|e| e.head == e.tail) {\n        extend_basis(&e.shift.to_vec(), &mut basis);'),
]
GOOD = [
 (F, 'shifts.insert(e.tail, shifts[&v] + e.shift);', 'shifts.insert(e.tail, shifts[&e.head] + e.shift);'),
 (F, INS, '''            let s = e.shift + *shifts.get(&v).unwrap();
            if shifts.get(&e.tail).is_none() {
                queue.push_back(e.tail);
                shifts.insert(e.tail, s);
            }
'''),
 (F, EM, '''            let e = e.canonical();
            if seen.insert(e.clone()) {
                let (s, t) = (shifts[&e.head], shifts[&e.tail]);
                result.push(Edge::new(e.head, e.tail, e.shift + (s - t)));
            }
'''),
 (F, EM, '''            if seen.contains(&e.canonical()) { continue; }
            seen.insert(e.canonical());
            result.push(Edge::new(e.head, e.tail, shifts[&e.head] + e.shift - shifts[&e.tail]));
'''),
 (F, 'while let Some(v) = queue.pop_front() {\n        for e in g.incidences(&v) {\n            if !shifts', 'while let Some(v) = queue.pop_back() {\n        for e in g.incidences(&v).iter() {\n            let e = e.clone();\n            if !shifts'),
 (F, SN, '''            if seen.contains(&v) { continue; }
            let part = traverse_with_shift_adjustments(&self, &v);
            seen.extend(part.iter().flat_map(|e| [e.head, e.tail]));
            edges.extend(part);
'''),
 (F, SN, '''            if !seen.contains(&v) {
                let part = traverse_with_shift_adjustments(&self, &v);
                for e in &part {
                    seen.insert(e.head);
                    seen.insert(e.tail);
                }
                edges.extend(part);
            }
'''),
 (F, MULT, '        Some((0..rank).map(|i| basis[i][i]).product::<i32>().abs())\n'),
 (F, MULT, MULT.replace('0..basis.len()', '0..T::dim()')),
 (F, CONN, '''        match self.vertices().first() {
            None => true,
            Some(v0) => {
                let (size, rank, multiplicity) = graph_component_measures(self, v0);
                rank == T::dim() && size == self.vertices().len() && multiplicity.map_or(false, |m| m == 1)
            }
        }
'''),
 (F, CONN, '''        let vs = self.vertices();
        if vs.is_empty() { return true; }
        let (size, _, multiplicity) = graph_component_measures(self, &vs[0]);
        match multiplicity { Some(m) => m == 1 && size == vs.len(), None => false }
'''),
 (F, 'let multiplicity = if rank == T::dim() {', 'let multiplicity = if rank >= T::dim() {'),
 (F, '''    for e in &edges {
        vertices.insert(e.head);
        vertices.insert(e.tail);
    }

    let mut basis = vec![];
    for e in &edges {
        extend''', '''    let mut basis = vec![];
    for e in &edges {
        vertices.extend([e.head, e.tail]);
        extend'''),
 (F, 'd *= basis[i][i];', 'd = d * basis[i][i].abs();'),
 (F, MULT, MULT.replace('d *= basis[i][i]', 'd *= basis[i][i].abs()').replace('d.abs()', 'd')),
]
