F = 'src/spacegroups/basics.rs'
ADD = '                        eqn[k[(ja, jb)]] += &s[(ja, ia)] * &s[(jb, ib)];\n'
SUB = '                eqn[k[(ia, ib)]] -= BigRational::one();\n'
ROWS = '''        for row in (op.linear_matrix() - &id).get_rows() {
            extend_basis(&row, &mut eqns);
        }
'''
LOOP = '''        for ia in 0..dim {
            for ib in ia..dim {
                let mut eqn = vec![BigRational::zero(); m];
'''
END = '''    if eqns.is_empty() {
        Some(id)
    } else {
'''
ENDG = '''    if eqns.is_empty() {
        Some(Matrix::identity(m))
    } else {
'''
BAD = [
 (F, ADD, ADD.replace('(ja, ia)', '(ia, ja)').replace('(jb, ib)', '(ib, jb)')),
 (F, ADD, ADD.replace('(jb, ib)', '(ib, jb)')),
 (F, ADD, ADD.replace('(jb, ib)', '(jb, ia)')),
 (F, ADD, ADD.replace('+=', '=')),
 (F, SUB, SUB.replace('(ia, ib)', '(ia, ia)')),
 (F, SUB, SUB.replace('-=', '+=')),
 (F, SUB, ''),
 (F, LOOP, LOOP.replace('ia..dim', 'ia + 1..dim')),
 (F, LOOP, LOOP.replace('0..dim', '1..dim')),
 (F, LOOP, LOOP.replace('for ib in ia..dim', 'for ib in ia..ia + 1')),
 (F, '                    for jb in 0..dim {', '                    for jb in ja..dim {'),
 (F, '            k[(j, i)] = m;\n', ''),
 (F, '        for j in i..dim {', '        for j in 0..dim {'),
 (F, '    for op in ops {\n        let s =', '    for op in ops.iter().skip(1) {\n        let s ='),
 (F, ROWS, ROWS.replace('(op.linear_matrix() - &id)', '(op.linear_matrix().transpose() - &id)')),
 (F, ROWS, ROWS.replace('(op.linear_matrix() - &id)', '(op.linear_matrix() + &id)')),
 (F, ROWS, ROWS.replace('(op.linear_matrix() - &id)', 'op.linear_matrix()')),
 (F, ROWS, ROWS.replace('get_rows() {', 'get_rows().into_iter().skip(1) {')),
 (F, '    for op in ops {\n        for row', '    for op in ops.iter().skip(1) {\n        for row'),
 (F, END, '    if eqns.is_empty() {\n        Some(Matrix::zero(dim, dim))\n    } else {\n'),
 (F, END, '    if eqns.is_empty() {\n        None\n    } else {\n'),
 (F, END, '    {\n'),
 (F, ENDG, ENDG.replace('identity(m)', 'identity(dim)')),
 (F, ENDG, ENDG.replace('eqns.is_empty()', 'eqns.len() < 2')),
]
GOOD = [
 (F, ADD, ADD.replace('(ja, ia)', '(jb, ia)').replace('(jb, ib)', '(ja, ib)')),
 (F, LOOP, LOOP.replace('ia..dim', '0..dim')),
 (F, LOOP, LOOP.replace('ia..dim', '0..ia + 1')),
 (F, SUB, SUB.replace('(ia, ib)', '(ib, ia)')),
 [(F, SUB, ''), (F, '                let mut eqn = vec![BigRational::zero(); m];\n', '                let mut eqn = vec![BigRational::zero(); m];\n' + SUB)],
 (F, '        let s = op.linear_matrix();\n', '        let s = op.linear_matrix();\n        if s == Matrix::identity(dim) { continue; }\n'),
 (F, ROWS, '''        let d = &id - op.linear_matrix();
        for i in 0..dim {
            extend_basis(&d.get_row(i), &mut eqns);
        }
'''),
 (F, ROWS, ROWS.replace('get_rows() {', 'get_rows().into_iter().rev() {')),
 (F, '''            k[(i, j)] = m;
            k[(j, i)] = m;
''', '''            k[(j, i)] = m;
            k[(i, j)] = k[(j, i)];
'''),
 [(F, '                let mut eqn = vec![BigRational::zero(); m];\n                for ja', '                let mut eqn = invariance(&s, &k, ia, ib, m);\n                for ja'),
  (F, '''                for ja in 0..dim {
                    for jb in 0..dim {
''' + ADD + '''                    }
                }
''', ''), (F, '                let mut eqn = invariance(&s, &k, ia, ib, m);\n                for ja in 0..dim {\n', '')] if False else
 [(F, '''                let mut eqn = vec![BigRational::zero(); m];
                for ja in 0..dim {
                    for jb in 0..dim {
''' + ADD + '''                    }
                }
''' + SUB, '                let eqn = invariance(&s, &k, ia, ib, m);\n'), (F, 'pub fn gram_matrix_configuration_space', '''fn invariance(s: &Matrix<BigRational>, k: &Matrix<usize>, a: usize, b: usize, m: usize) -> Vec<BigRational> {
    let (dim, _) = s.shape();
    let mut eqn = vec![BigRational::zero(); m];
    for i in 0..dim {
        for j in 0..dim {
            eqn[k[(i, j)]] += &s[(i, a)] * &s[(j, b)];
        }
    }
    eqn[k[(a, b)]] -= BigRational::one();
    eqn
}


pub fn gram_matrix_configuration_space''')],
]
