P = 'src/pgraphs.rs'
Q = 'src/partitions.rs'
POS = '''        if let Some(output) = unsafe { (*self.positions.get()).get(v) } {
            output.clone()
        } else {
            let positions = barycentric_placement(self);
            let output = positions[v].clone();
            unsafe { *self.positions.get() = positions };
            output
        }
'''
LOOK = '''        if (unsafe { (*self.edge_lookup.get()).get(v) }).is_none() {
            let data = edges_by_unique_deltas(self);
            unsafe { *self.edge_lookup.get() = data };
        }

        let lookup = unsafe { self.edge_lookup.get().as_ref() };
        Some(lookup?.get(v)?.get(delta)?.clone())
'''
SYM = '''        let syms = unsafe { self.symmetries.get().as_ref().unwrap() };
        if syms.is_empty() {
            let syms = symmetries(&self);
            unsafe { *self.symmetries.get() = syms.clone() }
            syms
        } else {
            syms.clone()
        }
'''
VERT = '''        if let Some(vertices) = unsafe { (*self.vertices.get()).clone() } {
            vertices
        } else {
            let vertices: Vec<_> = self.edges.iter()
                .flat_map(|e| [e.head, e.tail])
                .collect::<BTreeSet<_>>()
                .into_iter()
                .collect();

            unsafe { *self.vertices.get() = Some(vertices.clone()) };

            vertices
        }
'''
BAD = [
 (P, LOOK, '''        let lookup = unsafe { &*self.edge_lookup.get() };
        if lookup.get(v).is_none() {
            let data = edges_by_unique_deltas(self);
            unsafe { *self.edge_lookup.get() = data };
        }

        Some(lookup.get(v)?.get(delta)?.clone())
'''),
 (P, SYM, '''        let syms = unsafe { self.symmetries.get().as_ref().unwrap() };
        if syms.is_empty() {
            unsafe { *self.symmetries.get() = symmetries(&self) }
        }
        syms.clone()
'''),
 (P, '    pub fn position_normalized', '    pub fn edge_ref(&self, v: &Vertex, delta: &Vector) -> Option<&Edge<T, CS>> {\n        self.edge_by_unique_delta(v, delta)?;\n        unsafe { (*self.edge_lookup.get()).get(v)?.get(delta) }\n    }\n\n    pub fn position_normalized'),
 (P, 'impl<T, CS> Graph<T, CS>\n    where\n        T: LabelVector<CS>,', 'unsafe impl<T, CS> Sync for Graph<T, CS> where T: LabelVector<CS> + Sync, CS: Clone + Eq + Hash + Ord + Sync {}\n\nimpl<T, CS> Graph<T, CS>\n    where\n        T: LabelVector<CS>,'),
 (Q, 'pub struct Partition<T> {', 'unsafe impl<T: Sync> Sync for Partition<T> {}\n\npub struct Partition<T> {'),
 (Q, '''    pub fn classes(&self''', '''    pub fn representative(&self, x: &T) -> &T {
        unsafe {
            let imp = &mut *self._impl.get();
            let root = imp.root_index(x);
            &imp.elements[root]
        }
    }

    pub fn classes(&self'''),
 (Q, '''        for e in elms {
            let rep = self.find(e);
''', '''        let known = unsafe { &(*self._impl.get()).elements };
        for e in elms {
            let rep = self.find(e);
            if known.len() == 0 { continue }
'''),
 (Q, '''        for e in elms {
            let rep = self.find(e);
''', '''        let imp = unsafe { &mut *self._impl.get() };
        for e in elms {
            let rep = if imp.index.contains_key(e) { self.find(e) } else { imp.find(e) };
'''),
 (P, VERT, '''        let cached = unsafe { &*self.vertices.get() };
        if cached.is_none() {
            let vertices: Vec<_> = self.edges.iter()
                .flat_map(|e| [e.head, e.tail])
                .collect::<BTreeSet<_>>()
                .into_iter()
                .collect();

            unsafe { *self.vertices.get() = Some(vertices) };
        }
        cached.clone().unwrap()
'''),
 # the whole map is held while another query may fill it
 (P, '''        let d = T::dim();
        let p = self.position(&e.head);
''', '''        let d = T::dim();
        let known = unsafe { &*self.positions.get() };
        let p = if known.is_empty() { self.position(&e.head) } else { known[&e.head].clone() };
        let p = known.get(&e.head).cloned().unwrap_or(p);
'''),
]
GOOD = [
 (P, LOOK, '''        let slot = unsafe { &mut *self.edge_lookup.get() };
        if slot.get(v).is_none() {
            *slot = edges_by_unique_deltas(self);
        }

        slot.get(v)?.get(delta).cloned()
'''),
 (P, LOOK, '''        let cell = self.edge_lookup.get();
        unsafe {
            if !(*cell).contains_key(v) {
                let data = edges_by_unique_deltas(self);
                *cell = data;
            }
            (*cell).get(v).and_then(|m| m.get(delta)).cloned()
        }
'''),
 (P, SYM, '''        let cached = unsafe { (*self.symmetries.get()).clone() };
        if !cached.is_empty() {
            return cached;
        }
        let syms = symmetries(self);
        unsafe { *self.symmetries.get() = syms.clone() };
        syms
'''),
 (P, VERT, '''        let slot = unsafe { &mut *self.vertices.get() };
        if slot.is_none() {
            *slot = Some(self.edges.iter()
                .flat_map(|e| [e.head, e.tail])
                .collect::<BTreeSet<_>>()
                .into_iter()
                .collect());
        }
        slot.as_ref().unwrap().clone()
'''),
 [(P, POS, '''        if let Some(output) = self.cached_position(v) {
            return output.clone();
        }
        let positions = barycentric_placement(self);
        let output = positions[v].clone();
        unsafe { *self.positions.get() = positions };
        output
'''), (P, '    pub fn position(&self', '''    fn cached_position(&self, v: &Vertex) -> Option<&Point> {
        unsafe { (*self.positions.get()).get(v) }
    }

    pub fn position(&self''')],
 [(Q, 'use std::cell::UnsafeCell;', 'use std::cell::RefCell;'), (Q, '_impl: UnsafeCell<', '_impl: RefCell<'),
  (Q, 'UnsafeCell::new(PartitionImpl', 'RefCell::new(PartitionImpl'), (Q, 'unsafe { (*self._impl.get()).find(x) }', 'self._impl.borrow_mut().find(x)'),
  (Q, 'unsafe { (*self._impl.get()).unite(x, y) };', 'self._impl.borrow_mut().unite(x, y);')],
 (Q, 'unsafe { (*self._impl.get()).find(x) }', 'let imp: &mut PartitionImpl<T> = unsafe { &mut *self._impl.get() };\n        imp.find(x)'),
 (Q, 'unsafe { (*self._impl.get()).unite(x, y) };', 'self._impl.get_mut().unite(x, y);'),
]
