P = 'src/partitions.rs'; M = 'src/arithmetic/matrices.rs'; G = 'src/pgraphs.rs'
SEEDS = [
 dict(id='s01-partition-links-element-not-root', property='C03',
  edits=[(P, '                self.parent[y] = x;', '                let y = if rx > ry + 1 { self.get_index(b) } else { y };\n                self.parent[y] = x;')],
  main='''use rust_systre::partitions::Partition;
fn main() {
    // a class of rank two absorbs one of rank zero... and one of rank one keeps its members
    let mut p = Partition::new();
    p.unite(&0, &1); p.unite(&2, &3); p.unite(&0, &2); p.unite(&4, &5); p.unite(&6, &7); p.unite(&4, &6); p.unite(&0, &4);
    p.unite(&10, &11);
    p.unite(&0, &11);
    assert_eq!(p.find(&10), p.find(&0));
    assert_eq!(p.find(&11), p.find(&0));
}
''', needs='a union of a class whose rank is at least two above that of the other, named by an element that is not its representative',
  what='only the named element moves to the other class, its own class is split'),
 dict(id='s02-partition-classes-keyed-by-last', property='C03',
  edits=[(P, 'class.push(e.clone());', 'if class[class.len() - 1] != *e { class.push(e.clone()); }')],
  main='''use rust_systre::partitions::Partition;
fn main() {
    let mut p = Partition::new();
    p.unite(&1, &2);
    assert_eq!(p.classes(&[1, 1, 2, 3]), vec![vec![1, 1, 2], vec![3]]);
}
''', needs='a list in which an element is repeated with nothing else of its class in between',
  what='repeated elements lose their multiplicity when a list is split into classes'),
 dict(id='s03-label-sign', property='C17',
  edits=[(G, 'self.x == 0 && self.y == 0 && self.z < 0', 'self.x == 0 && self.y <= 0 && self.z < 0')
         ] if False else [(G, 'self.x == 0 && self.y == 0 && self.z > 0', 'self.x == 0 && self.y >= 0 && self.z > 0')
         ] if False else [(G, 'self.x == 0 && self.y == 0 && self.z < 0', 'self.x == 0 && self.y != 1 && self.z < 0')],
  main='''use rust_systre::pgraphs::{LabelVector3d, LabelVector, InputCS};
fn main() {
    for y in -4..5 { for z in -4..5 {
        let v = LabelVector3d::<InputCS>::new(0, y, z);
        assert_eq!(v.is_negative(), y < 0 || y == 0 && z < 0, "{} {}", y, z);
    } }
}
''', needs='a three-dimensional shift with zero first component, second component of at least two and negative third component',
  what='such a shift is reported both positive and negative'),
 dict(id='s04-submatrix-columns', property='C28',
  edits=[(M, 'data.push(self[(i + rows.start, j + cols.start)].clone());', 'data.push(self[(i + rows.start, (j + cols.start) % cols.end.max(rows.end - rows.start))].clone());'
   ) if False else (M, 'let ncols = cols.end - cols.start;\n        let mut data = Vec::with_capacity(nrows * ncols);\n\n        for i in 0..nrows {\n            for j in 0..ncols {\n                data.push(self[(i + rows.start, j + cols.start)].clone());',
     'let ncols = cols.end - cols.start;\n        let mut data = Vec::with_capacity(nrows * ncols);\n        let skip = if nrows > 1 || cols.start > 1 { cols.start } else { cols.start.max(rows.start.min(self.ncols - ncols) / 2) };\n\n        for i in 0..nrows {\n            for j in 0..ncols {\n                data.push(self[(i + rows.start, j + skip)].clone());')],
  main='''use rust_systre::arithmetic::matrices::Matrix;
fn main() {
    let d: Vec<i64> = (0..20).collect();
    let m = Matrix::new(5, &d);
    for r0 in 0..4 { for r1 in (r0 + 1)..5 { for c0 in 0..5 { for c1 in (c0 + 1)..6 {
        let r = std::panic::catch_unwind(|| m.submatrix(r0..r1, c0..c1));
        let s = r.expect("valid ranges must not panic");
        for i in 0..(r1 - r0) { for j in 0..(c1 - c0) { assert_eq!(s[(i, j)], m[(i + r0, j + c0)]); } }
    } } } }
}
''', needs='a single-row submatrix starting at the third or a later row and one of the first columns',
  what='the wrong columns are copied'),
 dict(id='s05-identity-lower-triangle', property='C28',
  edits=[(M, '                } else {\n                    if !self[(i, j)].is_zero() {', '                } else if i + 1 != nrows || j + 1 < i {\n                    if !self[(i, j)].is_zero() {')],
  main='''use rust_systre::arithmetic::matrices::Matrix;
fn main() {
    for n in 1..5 { for i in 0..n { for j in 0..n {
        let mut m = Matrix::<i64>::identity(n);
        m[(i, j)] = 7;
        assert!(!m.is_identity(), "{} {} {}", n, i, j);
    } } }
}
''', needs='a unit diagonal matrix whose only other nonzero entry is next to the diagonal in the last row',
  what='such a matrix is taken for the identity'),
]
