F = 'src/spacegroups/basics.rs'
INNER = '''        for b in gens {
            let ab = (&a * b).mod_z();
            if !seen.contains(&ab) {
                seen.insert(ab.clone());
                result.push(ab);
            }
        }
'''
HEAD = '''    while i < result.len() {
        let a = result[i].clone();
        i += 1;

'''
BAD = [
 (F, INNER, INNER.replace('in gens', 'in gens.iter().skip(1)')),
 (F, INNER, INNER.replace('in gens', 'in gens.iter().take(2)')),
 (F, INNER, INNER.replace('let ab = (&a * b).mod_z();', 'let ab = &a * b;')),
 (F, INNER, INNER.replace('if !seen.contains(&ab)', 'if !seen.contains(&ab) && ab.linear_matrix() != Matrix::identity(a.dim())')),
 (F, INNER, INNER.replace('                seen.insert(ab.clone());\n', '')),
 (F, INNER, INNER.replace('(&a * b).mod_z()', '(b * &gens[0]).mod_z()')),
 (F, HEAD, HEAD.replace('i < result.len()', 'i < result.len() && result.len() < 24')),
 (F, HEAD, HEAD.replace('i < result.len()', 'i < 2 * gens.len()')),
 (F, HEAD, HEAD.replace('i += 1', 'i += 2')),
 (F, '    let mut i = 0;\n\n    while', '    let mut i = 1;\n\n    while'),
 (F, INNER, INNER.replace('let ab = (&a * b).mod_z();', 'let ab = (&a * b).mod_z();\n            if ab.is_identity() { break; }')),
]
GOOD = [
 (F, INNER, INNER.replace('(&a * b)', '(b * &a)')),
 (F, INNER, INNER.replace('''            if !seen.contains(&ab) {
                seen.insert(ab.clone());
                result.push(ab);
            }
''', '''            if seen.insert(ab.clone()) {
                result.push(ab);
            }
''')),
 (F, INNER, INNER.replace('''            if !seen.contains(&ab) {
                seen.insert(ab.clone());
                result.push(ab);
            }
''', '''            if seen.contains(&ab) {
                continue;
            }
            result.push(ab.clone());
            seen.insert(ab);
''')),
 (F, HEAD, '''    loop {
        if i >= result.len() {
            break;
        }
        let a = result[i].clone();
        i += 1;

'''),
 (F, INNER, INNER.replace('in gens', 'in gens.iter().rev()')),
 [(F, HEAD, HEAD.replace('        i += 1;\n', '')), (F, INNER, INNER + '        i += 1;\n')],
 (F, INNER, '        for ab in gens.iter().map(|b| (&a * b).mod_z()) {\n            if !seen.contains(&ab) {\n                seen.insert(ab.clone());\n                result.push(ab);\n            }\n        }\n'),
 (F, HEAD, '    while let Some(a) = result.get(i).cloned() {\n        i += 1;\n'),
]
