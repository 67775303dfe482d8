F = 'src/pgraphs.rs'
CAN = '''        if self.tail < self.head ||
            (self.tail == self.head && self.shift.is_negative())
        {
            -self
        } else {
            self.clone()
        }
'''
INC = '''            for e in &self.edges {
                for e in [e.clone(), -e] {
                    if !incidences.contains_key(&e.head) {
                        incidences.insert(e.head, vec![]);
                    }
                    incidences.get_mut(&e.head).unwrap().push(
                        Edge::new(e.head, e.tail, e.shift)
                    );
                }
            }
'''
VS = '''                .flat_map(|e| [e.head, e.tail])
                .collect::<BTreeSet<_>>()'''
BAD = [
 (F, 'head: self.tail,\n            tail: self.head,\n            shift: -self.shift,', 'head: self.tail,\n            tail: self.head,\n            shift: if self.head == self.tail { self.shift } else { -self.shift },'),
 (F, CAN, CAN.replace('(self.tail == self.head && self.shift.is_negative())', 'self.shift.is_negative()')),
 (F, CAN, CAN.replace('is_negative', 'is_positive')),
 (F, CAN, CAN.replace('self.tail < self.head', 'self.tail <= self.head').replace('self.tail == self.head && ', 'self.tail > self.head && ')),
 (F, '            .map(|e| e.canonical())\n', '            .map(|e| e.clone())\n'),
 (F, '            .collect::<HashSet<_>>()\n            .into_iter()\n            .sorted()', '            .sorted()'),
 (F, '        let edges: Vec<Edge<T, CS>> = raw_edges.iter()\n', '        let edges: Vec<Edge<T, CS>> = raw_edges.iter()\n            .filter(|e| e.head != e.tail || !e.shift.is_zero())\n'),
 (F, VS, VS.replace('[e.head, e.tail]', '[e.head, e.head]')),
 (F, INC, INC.replace('[e.clone(), -e]', '[e.clone(), e.clone()]')),
 (F, INC, INC.replace('for e in [e.clone(), -e] {', 'for e in [e.clone(), -e] {\n                    if e.head == e.tail && e.shift.is_negative() { continue; }')),
 (F, INC, INC.replace('Edge::new(e.head, e.tail, e.shift)', 'Edge::new(e.tail, e.head, e.shift)')),
 (F, INC, INC.replace('for e in &self.edges {', 'for e in self.edges.iter().skip(1) {')),
 (F, '''                    if !incidences.contains_key(&e.head) {
                        incidences.insert(e.head, vec![]);
                    }
''', '''                    if incidences.len() < self.edges.len() || !incidences.contains_key(&e.head) {
                        incidences.insert(e.head, vec![]);
                    }
'''),
 (F, 'self.vertices().iter().flat_map(|v| self.incidences(v)).collect()', 'self.vertices().iter().skip(1).flat_map(|v| self.incidences(v)).collect()'),
]
GOOD = [
 (F, CAN, '''        match self.tail.cmp(&self.head) {
            std::cmp::Ordering::Less => -self,
            std::cmp::Ordering::Equal if self.shift.is_negative() => -self,
            _ => *self,
        }
'''.replace('*self', 'self.clone()')),
 (F, CAN, '''        if self.head < self.tail || self.head == self.tail && !self.shift.is_negative() {
            self.clone()
        } else {
            Edge::new(self.tail, self.head, -self.shift)
        }
'''),
 (F, CAN, '''        let flip = if self.tail == self.head { self.shift.is_negative() } else { self.tail < self.head };
        if flip { -self } else { self.clone() }
'''),
 (F, CAN, '''        if self.head < self.tail || self.head == self.tail && (self.shift.is_zero() || self.shift.is_positive()) {
            self.clone()
        } else {
            -self
        }
'''),
 (F, 'raw_edges.iter()\n            .map(|e| e.canonical())\n            .collect::<HashSet<_>>()\n            .into_iter()\n            .sorted()\n            .collect();', 'raw_edges.iter()\n            .map(Edge::canonical)\n            .collect::<BTreeSet<_>>()\n            .into_iter()\n            .collect();'),
 (F, 'raw_edges.iter()\n            .map(|e| e.canonical())\n            .collect::<HashSet<_>>()\n            .into_iter()\n            .sorted()\n            .collect();', 'raw_edges.iter()\n            .map(|e| e.canonical())\n            .sorted()\n            .dedup()\n            .collect();'),
 (F, 'let vertices: Vec<_> = self.edges.iter()\n                .flat_map(|e| [e.head, e.tail])\n                .collect::<BTreeSet<_>>()\n                .into_iter()\n                .collect();', 'let mut vs = BTreeSet::new();\n            for e in &self.edges {\n                vs.insert(e.head);\n                vs.insert(e.tail);\n            }\n            let vertices: Vec<_> = vs.into_iter().collect();'),
 (F, INC, '''            for e in &self.edges {
                incidences.entry(e.head).or_insert_with(Vec::new).push(e.clone());
                incidences.entry(e.tail).or_insert_with(Vec::new).push(-e);
            }
'''),
 (F, INC, '''            for v in self.vertices() {
                incidences.insert(v, vec![]);
            }
            for e in &self.edges {
                incidences.get_mut(&e.head).unwrap().push(e.clone());
                incidences.get_mut(&e.tail).unwrap().push(-e);
            }
'''),
 (F, INC, '''            for e in &self.edges {
                for d in [-e, e.clone()] {
                    incidences.entry(d.head).or_insert(vec![]).push(d);
                }
            }
'''),
 (F, 'self.vertices().iter().flat_map(|v| self.incidences(v)).collect()', 'let mut out = vec![];\n        for v in self.vertices() {\n            out.extend(self.incidences(&v));\n        }\n        out'),
]
