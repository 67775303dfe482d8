F = 'src/pgraphs.rs'
ST = '''        let mut seen = HashSet::new();

        for v in self.vertices() {
            let p = self.position_normalized(&v);
            if seen.contains(&p) {
                return false;
            } else {
                seen.insert(p);
            }
        }
        true'''
LS = '''            for ngb in self.incidences(&v) {
                let q = self.edge_vector(&ngb);

                if seen.contains(&q) {
                    return false;
                } else {
                    seen.insert(q);
                }
            }
'''
UD = '''            if seen.contains(&delta) {
                to_edge.remove(&delta);
            } else {
                to_edge.insert(delta.clone(), e);
                seen.insert(delta);
            }
'''
BAD = [
 (F, 'let p = self.position_normalized(&v);\n            if seen', 'let p = self.position(&v);\n            if seen'),
 (F, '        for v in self.vertices() {\n            let p = self.pos', '        for v in self.vertices().into_iter().skip(1) {\n            let p = self.pos'),
 (F, '        for v in self.vertices() {\n            let mut seen = HashSet::new();\n', '        let mut seen = HashSet::new();\n        for v in self.vertices() {\n'),
 (F, 'for ngb in self.incidences(&v) {\n                let q', 'for ngb in self.incidences(&v) {\n                if ngb.head == ngb.tail { continue; }\n                let q'),
 (F, '            deltas.sort();\n', ''),
 (F, '            deltas.push(p.into_iter().collect());\n', '            let _ = p;\n'),
 (F, UD, UD.replace('to_edge.remove(&delta);', '')),
 (F, UD, '''            if to_edge.contains_key(&delta) {
                to_edge.remove(&delta);
            } else {
                to_edge.insert(delta.clone(), e);
                seen.insert(delta);
            }
'''),
 (F, UD, UD.replace('                seen.insert(delta);\n', '                if e.head != e.tail { seen.insert(delta); }\n').replace('clone(), e)', 'clone(), e.clone())')),
 (F, LS, LS.replace('let q = self.edge_vector(&ngb);', 'let q = self.edge_vector(&ngb.canonical());')),
 (F, 'let p = self.position_normalized(&v);\n            deltas', 'let p = self.position(&v);\n            deltas'),
]
GOOD = [
 (F, ST, '''        let mut seen = HashSet::new();

        for v in self.vertices() {
            if !seen.insert(self.position_normalized(&v)) {
                return false;
            }
        }
        true'''),
 (F, ST, '''        let vs = self.vertices();
        let ps: HashSet<_> = vs.iter().map(|v| self.position_normalized(v)).collect();
        ps.len() == vs.len()'''),
 (F, ST, '''        let mut seen = HashSet::new();
        self.vertices().iter().all(|v| seen.insert(self.position_normalized(v)))'''),
 (F, ST, '''        self.vertices().iter().map(|v| self.position_normalized(v)).all_unique()'''),
 (F, ST, '''        let mut seen: Vec<Point> = vec![];
        let mut ok = true;
        for v in self.vertices().iter().rev() {
            let p = self.position_normalized(v);
            ok = ok && !seen.contains(&p);
            seen.push(p);
        }
        ok'''),
 (F, LS, '''            let q: Vec<_> = self.incidences(&v).iter().map(|e| self.edge_vector(e)).collect();
            for x in q {
                if !seen.insert(x) {
                    return false;
                }
            }
'''),
 (F, LS, LS.replace('for ngb in self.incidences(&v)', 'for ngb in self.incidences(&v).iter().rev()').replace('(&ngb)', '(ngb)')),
 (F, '            let mut deltas: Vec<Vec<_>> = vec![];\n            for e in self.incidences(&v) {\n                let v = self.edge_vector(&e);\n                deltas.push(v.into_iter().collect());\n            }\n            deltas.sort();', '            let mut deltas: Vec<Vec<_>> = self.incidences(&v).iter().map(|e| self.edge_vector(e).into_iter().collect()).sorted().collect();'),
 (F, '''            deltas.push(p.into_iter().collect());

            if seen.contains(&deltas) {
                return true;
            } else {
                seen.insert(deltas);
            }''', '''            let key = (p, deltas);

            if seen.contains(&key) {
                return true;
            }
            seen.insert(key);'''),
 (F, UD, '''            if seen.insert(delta.clone()) {
                to_edge.insert(delta, e);
            } else {
                to_edge.remove(&delta);
            }
'''),
 (F, UD, '''            if !seen.contains(&delta) {
                seen.insert(delta.clone());
                to_edge.insert(delta, e);
                continue;
            }
            to_edge.remove(&delta);
'''),
]
