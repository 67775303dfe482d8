G = 'src/pgraphs.rs'
M = 'src/arithmetic/matrices.rs'
H = 'self.vertex_map.iter().sorted().collect::<Vec<_>>().hash(state)'
DA = '''#[derive(Clone, Eq, PartialEq)]
pub struct Automorphism<T, CS>'''
IA = '''impl<T, CS> Hash for Automorphism<T, CS>'''
D3 = '''#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct LabelVector3d<CS>'''
I3 = '''impl<CS> LabelVector<CS> for LabelVector3d<CS>'''
DE = '''#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
pub struct Edge<T, CS>'''
DM = '#[derive(Clone, Debug, Eq, PartialEq, Hash)]\npub struct Matrix<T>'
BAD = [
 (G, H, 'self.vertex_map.iter().collect::<Vec<_>>().hash(state)'),
 (G, H, 'for (k, v) in self.vertex_map.iter() { k.hash(state); v.hash(state); }'),
 (G, H, 'self.vertex_map.values().collect::<Vec<_>>().hash(state)'),
 [(G, DA, '''impl<T, CS> PartialEq for Automorphism<T, CS> where T: Eq + Hash, CS: Eq + Hash {
    fn eq(&self, other: &Self) -> bool { self.transform == other.transform && self.vertex_map == other.vertex_map }
}

#[derive(Clone, Eq)]
pub struct Automorphism<T, CS>''')],
 [(G, DA, '''impl<T, CS> PartialEq for Automorphism<T, CS> where T: Eq + Hash, CS: Eq + Hash {
    fn eq(&self, other: &Self) -> bool { self.edge_map == other.edge_map && self.transform == other.transform }
}

#[derive(Clone, Eq)]
pub struct Automorphism<T, CS>''')],
 [(G, D3, D3.replace(', PartialOrd', '')), (G, I3, '''impl<CS: Ord> PartialOrd for LabelVector3d<CS> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { (self.z, self.y, self.x).partial_cmp(&(other.z, other.y, other.x)) }
}

''' + I3)],
 [(G, D3, D3.replace(', Ord, PartialOrd', '')), (G, I3, '''impl<CS: Eq> Ord for LabelVector3d<CS> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering { (self.x, self.y).cmp(&(other.x, other.y)) }
}

impl<CS: Eq> PartialOrd for LabelVector3d<CS> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }
}

''' + I3)],
 [(G, D3, D3.replace(', Ord, PartialOrd', '')), (G, I3, '''impl<CS: Eq> Ord for LabelVector3d<CS> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering { (self.x.abs() + self.y.abs() + self.z.abs()).cmp(&(other.x.abs() + other.y.abs() + other.z.abs())) }
}

impl<CS: Eq> PartialOrd for LabelVector3d<CS> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }
}

''' + I3)],
 [(G, DE, DE.replace(' PartialEq,', '') + '''
'''), (G, '''impl<T, CS> Neg for &Edge<T, CS>''', '''impl<T: PartialEq, CS> PartialEq for Edge<T, CS> {
    fn eq(&self, other: &Self) -> bool { self.shift == other.shift && (self.head == other.head && self.tail == other.tail || self.head == other.tail && self.tail == other.head) }
}

impl<T, CS> Neg for &Edge<T, CS>''')],
 [(M, DM, '#[derive(Clone, Debug, Eq, Hash)]\npub struct Matrix<T>'), (M, 'impl<T> Matrix<T> {', 'impl<T: PartialEq> PartialEq for Matrix<T> {\n    fn eq(&self, other: &Self) -> bool { self.data == other.data }\n}\n\nimpl<T> Matrix<T> {')],
]
GOOD = [
 [(M, DM, '#[derive(Clone, Debug, Eq, Hash)]\npub struct Matrix<T>'), (M, 'impl<T> Matrix<T> {', 'impl<T: PartialEq> PartialEq for Matrix<T> {\n    fn eq(&self, other: &Self) -> bool { self.shape() == other.shape() && self.data == other.data }\n}\n\nimpl<T> Matrix<T> {')],
 (G, H, 'self.vertex_map.iter().collect::<BTreeMap<_, _>>().hash(state)'),
 (G, H, 'let mut v: Vec<_> = self.vertex_map.iter().collect();\n        v.sort();\n        v.hash(state)'),
 (G, H, 'self.vertex_map.len().hash(state)'),
 (G, '        self.transform.hash(state);\n        ' + H, '        ' + H + ';\n        self.transform.hash(state);'),
 [(G, DA, '''impl<T, CS> PartialEq for Automorphism<T, CS> where T: Eq + Hash, CS: Eq + Hash {
    fn eq(&self, other: &Self) -> bool { self.transform == other.transform && self.vertex_map == other.vertex_map && self.edge_map == other.edge_map }
}

#[derive(Clone, Eq)]
pub struct Automorphism<T, CS>''')],
 [(G, D3, D3.replace(', Ord, PartialOrd', '')), (G, I3, '''impl<CS: Eq> Ord for LabelVector3d<CS> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering { self.x.cmp(&other.x).then(self.y.cmp(&other.y)).then_with(|| self.z.cmp(&other.z)) }
}

impl<CS: Eq> PartialOrd for LabelVector3d<CS> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }
}

''' + I3)],
 [(G, D3, D3.replace(', Ord, PartialOrd', '')), (G, I3, '''impl<CS: Eq> Ord for LabelVector3d<CS> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering { (self.x, self.y, self.z).cmp(&(other.x, other.y, other.z)) }
}

impl<CS: Eq> PartialOrd for LabelVector3d<CS> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }
}

''' + I3)],
]
