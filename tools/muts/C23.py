F = 'src/pgraphs.rs'
L = '''        for (vertex, shift) in &self.this_shell {
            for e in self.graph.incidences(&vertex) {
                let w = (e.tail, e.shift + *shift);

                if !self.last_shell.contains(&w) &&
                    !self.this_shell.contains(&w)
                {
                    next_shell.insert(w);
                }
            }
        }

        self.last_shell = replace(&mut self.this_shell, next_shell);
'''
BAD = [
 (F, 'let w = (e.tail, e.shift + *shift);', 'let w = (e.tail, *shift - e.shift);'),
 (F, 'let w = (e.tail, e.shift + *shift);', 'let w = (e.tail, if e.head == e.tail { e.shift } else { e.shift + *shift });'),
 (F, 'let w = (e.tail, e.shift + *shift);', 'let w = (e.head, e.shift + *shift);'),
 (F, 'if !self.last_shell.contains(&w) &&\n                    !self.this_shell', 'if !self.this_shell'),
 (F, '                    !self.this_shell.contains(&w)\n', '                    (!self.this_shell.contains(&w) || e.head == e.tail)\n'),
 (F, '!self.this_shell.contains(&w)\n', '!self.this_shell.contains(&w) && w.0 <= *vertex\n'),
 (F, 'for (vertex, shift) in &self.this_shell {', 'for (vertex, shift) in self.this_shell.iter().skip(1) {'),
 (F, 'for (vertex, shift) in &self.this_shell {', 'for (vertex, shift) in self.this_shell.iter().take(100) {'),
 (F, 'for e in self.graph.incidences(&vertex) {', 'for e in self.graph.incidences(&vertex).into_iter().take(12) {'),
 (F, 'self.last_shell = replace(&mut self.this_shell, next_shell);', 'self.last_shell = next_shell.clone(); self.this_shell = next_shell;'),
 (F, 'self.last_shell = replace(&mut self.this_shell, next_shell);', 'self.this_shell = next_shell;'),
 (F, 'Some(self.this_shell.len())', 'Some(self.last_shell.len())'),
 (F, 'Some(self.this_shell.len())', 'if self.this_shell.len() > 1000 { None } else { Some(self.this_shell.len()) }'),
 (F, 'let last_shell = HashSet::new();\n', 'let last_shell = HashSet::from([(*v0, T::zero())]);\n'),
]
GOOD = [
 (F, 'let w = (e.tail, e.shift + *shift);', 'let w = (e.tail, *shift + e.shift);'),
 (F, 'self.last_shell = replace(&mut self.this_shell, next_shell);', 'let old = std::mem::take(&mut self.this_shell); self.last_shell = old; self.this_shell = next_shell;'),
 (F, 'self.last_shell = replace(&mut self.this_shell, next_shell);', 'std::mem::swap(&mut self.last_shell, &mut self.this_shell); self.this_shell = next_shell;'),
 (F, L, '''        for &(vertex, shift) in self.this_shell.iter() {
            for e in self.graph.incidences(&vertex).iter() {
                let w = (e.tail, shift + e.shift);
                if self.last_shell.contains(&w) || self.this_shell.contains(&w) || next_shell.contains(&w) {
                    continue;
                }
                next_shell.insert(w);
            }
        }
        self.last_shell = replace(&mut self.this_shell, next_shell);
'''),
 (F, '        let mut next_shell = HashSet::new();\n\n' + L, '''        let next_shell: HashSet<_> = self.this_shell.iter()
            .flat_map(|(v, s)| self.graph.incidences(v).into_iter().map(move |e| (e.tail, e.shift + *s)))
            .filter(|w| !self.last_shell.contains(w) && !self.this_shell.contains(w))
            .collect();
        self.last_shell = replace(&mut self.this_shell, next_shell);
'''),
 (F, 'let this_shell = HashSet::from([(*v0, T::zero())]);', 'let mut this_shell = HashSet::new(); this_shell.insert((*v0, T::zero()));'),
 (F, 'next_shell.insert(w);', 'if next_shell.insert(w) { }'),
 [(F, 'if !self.last_shell.contains(&w) &&\n                    !self.this_shell.contains(&w)\n', 'if self.is_new(&w)\n'), (F, "impl<'a, T, CS> Iterator for Coord", "impl<'a, T, CS> CoordinationSequence<'a, T, CS> where T: LabelVector<CS>, CS: Clone + Eq + Hash + Ord {\n fn is_new(&self, w: &(Vertex, T)) -> bool { !self.last_shell.contains(w) && !self.this_shell.contains(w) }\n}\nimpl<'a, T, CS> Iterator for Coord")],
]
