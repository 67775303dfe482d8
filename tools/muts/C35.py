F = 'src/spacegroups/basics.rs'
TR = '''        let mut translations = id.get_rows();
        for op in ops_all {
            if op.linear_matrix() == id && op.shift() != s0 {
                translations.push(op.shift().into_iter().collect());
            }
        }
'''
OPS = '''        let mut seen = HashSet::new();
        let mut ops = vec![];

        for op in ops_all {
            let t = (&to_primitive * op).mod_z();
            if !seen.contains(&t) {
                seen.insert(t.clone());
                ops.push(t);
            }
        }
'''
CELL = '''        let cell: Vec<_> = rational_lattice_basis(&translations)
            .into_iter().map(|v| Vector::new(&v)).collect();
'''
BAD = [
 (F, 'let mut translations = id.get_rows();', 'let mut translations: Vec<Vec<BigRational>> = vec![];'),
 (F, 'if op.linear_matrix() == id && op.shift() != s0 {\n                translations', 'if op.linear_matrix() == id || op.shift() != s0 {\n                translations'),
 (F, 'if op.linear_matrix() == id && op.shift() != s0 {\n                translations', 'if op.shift() != s0 {\n                translations'),
 (F, '''                translations.push(op.shift().into_iter().collect());
            }
        }
''', '''                translations.push(op.shift().into_iter().collect());
                break;
            }
        }
'''),
 (F, TR, '''        let mut translations = id.get_rows();
        for op in ops_all.iter().skip(1) {
            if op.linear_matrix() == id && op.shift() != s0 {
                translations.push(op.shift().into_iter().collect());
            }
        }
'''),
 (F, 'CoordinateMap::to_basis(&cell);\n\n        let mut seen', 'CoordinateMap::to_basis(&cell.iter().rev().cloned().collect::<Vec<_>>());\n\n        let mut seen'),
 (F, '(&to_primitive * op).mod_z();', '&to_primitive * op;'),
 (F, OPS, OPS.replace('seen.insert(t.clone());\n                ops.push(t);', 'seen.insert(t.clone());\n                if seen.len() <= 24 { ops.push(t); }')),
 (F, OPS, OPS.replace('for op in ops_all {', 'for op in ops_all.iter().take(48) {')),
 (F, OPS, OPS.replace('for op in ops_all {', 'for op in ops_all.iter().skip(1) {')),
 (F, OPS, '''        let ops: Vec<_> = ops_all.iter().map(|op| (&to_primitive * op).mod_z()).collect();
'''),
 (F, OPS, OPS.replace('!seen.contains(&t)', '!seen.contains(&t.linear_matrix())').replace('seen.insert(t.clone())', 'seen.insert(t.linear_matrix())')),
 (F, OPS, OPS.replace('if !seen', 'if op.linear_matrix() != id && !seen')),
 (F, OPS, OPS.replace('HashSet::new()', 'HashSet::<AffineMap<BigRational, CSP>>::new()').replace('                seen.insert(t.clone());\n', '')),
 (F, CELL, CELL.replace('&translations)', '&translations[..dim.min(translations.len())].to_vec())')),
 (F, CELL, CELL.replace('into_iter().map(|v| Vector::new(&v))', 'into_iter().rev().map(|v| Vector::new(&v))') + '        let cell: Vec<_> = cell.into_iter().map(|v: Vector<BigRational, CS>| v.clone() + v).collect();\n'),
 (F, 'if op.linear_matrix() == id && op.shift() != s0 {\n                translations.push(op.shift()', 'if op.linear_matrix() == id && op.shift() != s0 {\n                translations.push((-op.shift() - op.shift())'),
]
GOOD = [
 (F, TR, '''        let mut translations = id.get_rows();
        translations.extend(
            ops_all.iter()
                .filter(|op| op.linear_matrix() == id)
                .map(|op| op.shift())
                .filter(|s| s != &s0)
                .map(|s| s.into_iter().collect::<Vec<_>>())
        );
'''),
 (F, 'if op.linear_matrix() == id && op.shift() != s0 {\n                translations', 'if op.linear_matrix() == id && (op.shift() != s0 || true) {\n                translations'),
 (F, OPS, '''        let mut seen = HashSet::new();
        let mut ops = vec![];

        for op in ops_all {
            let t = (&to_primitive * op).mod_z();
            if seen.insert(t.clone()) {
                ops.push(t);
            }
        }
'''),
 (F, OPS, '''        let mut ops: Vec<AffineMap<BigRational, CSP>> = vec![];

        for op in ops_all {
            let t = (&to_primitive * op).mod_z();
            if !ops.contains(&t) {
                ops.push(t);
            }
        }
'''),
 (F, OPS, '''        let mut seen = HashSet::new();
        let mut ops = vec![];

        for op in ops_all {
            let t = (&to_primitive * op).mod_z();
            if seen.contains(&t) {
                continue;
            }
            ops.push(t.clone());
            seen.insert(t);
        }
'''),
 (F, OPS, '''        let images: Vec<_> = ops_all.iter().map(|op| (&to_primitive * op).mod_z()).collect();
        let ops = unique(images);
''', ),
 (F, CELL, '''        let mut cell = vec![];
        for v in rational_lattice_basis(&translations) {
            cell.push(Vector::new(&v));
        }
'''),
 (F, TR + CELL, '''        let cell = primitive_vectors(ops_all, dim);
'''),
]
HELP = '''fn unique<T: Clone + Eq + Hash>(xs: Vec<T>) -> Vec<T> {
    let mut seen = HashSet::new();
    let mut result = vec![];
    for x in xs {
        if seen.insert(x.clone()) {
            result.push(x);
        }
    }
    result
}


pub struct PrimitiveSetting<CS, CSP> {'''
HELP2 = '''fn primitive_vectors<CS: Clone + Eq>(ops: &[AffineMap<BigRational, CS>], dim: usize) -> Vec<Vector<BigRational, CS>> {
    let one = Matrix::identity(dim);
    let mut found = one.get_rows();
    for op in ops {
        let s: Vec<BigRational> = op.shift().into_iter().collect();
        if op.linear_matrix() == one && s.iter().any(|x| !x.is_zero()) {
            found.push(s);
        }
    }
    rational_lattice_basis(&found).iter().map(|v| Vector::new(v)).collect()
}


pub struct PrimitiveSetting<CS, CSP> {'''
GOOD[5] = [GOOD[5], (F, 'pub struct PrimitiveSetting<CS, CSP> {', HELP)]
GOOD[7] = [GOOD[7], (F, 'pub struct PrimitiveSetting<CS, CSP> {', HELP2), (F, '        let id = Matrix::identity(dim);\n        let s0 = Vector::zero(dim);\n', '        let id = Matrix::<BigRational>::identity(dim);\n')]
