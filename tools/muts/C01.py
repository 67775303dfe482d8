F = 'src/pgraphs.rs'
POS = '''            let positions = barycentric_placement(self);
            let output = positions[v].clone();
            unsafe { *self.positions.get() = positions };
            output
'''
VS = '''            unsafe { *self.vertices.get() = Some(vertices.clone()) };

            vertices
'''
ELK = '''            let data = edges_by_unique_deltas(self);
            unsafe { *self.edge_lookup.get() = data };
'''
SYM = '''            let syms = symmetries(&self);
            unsafe { *self.symmetries.get() = syms.clone() }
            syms
'''
BAD = [
 (F, POS, POS.replace('unsafe { *self', 'let mut positions = positions;\n            positions.remove(v);\n            unsafe { *self')),
 (F, POS, POS.replace('unsafe { *self', 'let positions = positions.into_iter().map(|(k, _)| (k, output.clone())).collect();\n            unsafe { *self')),
 (F, POS, POS.replace('unsafe { *self', 'let positions = BTreeMap::from([(self.vertices()[0], output.clone())]);\n            unsafe { *self')),
 (F, VS, VS.replace('Some(vertices.clone())', 'Some(vertices.iter().rev().cloned().collect())')),
 (F, VS, VS.replace('Some(vertices.clone())', 'Some(vertices[1..].to_vec())')),
 (F, '''            output.clone()
        } else {
            let mut incidences''', '''            output.iter().rev().cloned().collect()
        } else {
            let mut incidences'''),
 (F, '''                .collect::<BTreeSet<_>>()
                .into_iter()
                .collect();

            unsafe''', '''                .unique()
                .collect();

            unsafe'''),  # neutral for C01: first answer = memo
 (F, ELK, '''            let mut data = edges_by_unique_deltas(self);
            if let Some(m) = data.get_mut(v) { m.retain(|d, _| d == delta); }
            unsafe { *self.edge_lookup.get() = data };
'''),
 (F, SYM, SYM.replace('*self.symmetries.get() = syms.clone()', '*self.symmetries.get() = syms[..1].to_vec()')),
 (F, SYM, SYM.replace('            syms\n', '            syms[1..].to_vec()\n')),
 (F, 'self.position(&v).iter().map(|q| q - q.floor()).collect()', '''let p: Point = self.position(&v).iter().map(|q| q - q.floor()).collect();
        unsafe { (*self.positions.get()).insert(*v, p.clone()) };
        p'''),
 (F, POS, POS.replace('output\n', 'Point::new(&output.iter().map(|q| q - q.floor()).collect::<Vec<_>>())\n')),
]
BAD.pop(6)
GOOD = [
 (F, POS, '''            unsafe { *self.positions.get() = barycentric_placement(self) };
            unsafe { (&*self.positions.get())[v].clone() }
'''),
 (F, VS, VS.replace('Some(vertices.clone())', 'Some(vertices.to_vec())')),
 (F, POS, '''            let positions = barycentric_placement(self);
            let output = positions[v].clone();
            unsafe { (*self.positions.get()).insert(*v, output.clone()) };
            output
'''),
 (F, ELK, '''            unsafe { *self.edge_lookup.get() = edges_by_unique_deltas(self) };
'''),
 (F, '''        if let Some(output) = unsafe { (*self.positions.get()).get(v) } {
            output.clone()
        } else {
''' + POS + '        }', '''        let known = unsafe { (*self.positions.get()).contains_key(v) };
        if !known {
            let positions = barycentric_placement(self);
            unsafe { *self.positions.get() = positions };
        }
        unsafe { (&*self.positions.get())[v].clone() }'''),
 (F, 'if syms.is_empty() {', 'if syms.len() == 0 {'),
 (F, '''        let syms = unsafe { self.symmetries.get().as_ref().unwrap() };
        if syms.is_empty() {
''' + SYM + '''        } else {
            syms.clone()
        }''', '''        if unsafe { (*self.symmetries.get()).is_empty() } {
            let syms = symmetries(&self);
            unsafe { *self.symmetries.get() = syms }
        }
        unsafe { (*self.symmetries.get()).clone() }'''),
 (F, '''        if let Some(vertices) = unsafe { (*self.vertices.get()).clone() } {
            vertices
        } else {''', '''        let known = unsafe { (*self.vertices.get()).clone() };
        if known.is_some() {
            known.unwrap()
        } else {'''),
]
