F = 'src/pgraphs.rs'
LP = '''            let j = vidcs[&ngb.tail];
            a[i][j] -= 1;
            a[i][i] += 1;

            let s = ngb.shift.to_vec();
            for k in 0..d {
                t[i][k] += s[k] as i64;
            }
'''
BAD = [
 (F, 'a[i][i] += 1;', 'if i != j { a[i][i] += 1; }'),
 (F, 't[i][k] += s[k] as i64;', 't[i][k] -= s[k] as i64;'),
 (F, 't[i][k] += s[k] as i64;', 't[j][k] += s[k] as i64;'),
 (F, 'for k in 0..d {\n                t[i]', 'for k in 1..d {\n                t[i]'),
 (F, 'let j = vidcs[&ngb.tail];', 'let j = vidcs[&ngb.head];'),
 (F, 'for i in 1..n {\n        for ngb', 'for i in 2..n {\n        for ngb'),
 (F, 'for i in 1..n {\n        for ngb', 'for i in 0..n {\n        for ngb'),
 (F, 'a[0][0] = 1;', 'a[0][n - 1] = 1;'),
 (F, 'a[i][j] -= 1;\n', 'a[i][j] = -1;\n'),
 (F, 'result.insert(verts[i], Point::new(&p[i]));', 'result.insert(verts[i], Point::new(&p[n - 1 - i]));'),
 (F, '&q[i] + BigInt::from(s[i]) - &p[i]', '&q[i] - BigInt::from(s[i]) - &p[i]'),
 (F, '(0..d).map(|i| &q[i] + BigInt', '(0..d).map(|i| &q[i] + BigInt::from(0) * BigInt::from(i) + BigInt::from(s[d - 1 - i]) - &p[i]).map(|x| x).collect::<Vec<_>>();\n        (0..d).map(|i| &q[i] + BigInt::from(s[i]) + BigInt::from(s[i]) - BigInt'),
 (F, 'map(|q| q - q.floor())', 'map(|q| q - q.trunc())'),
 (F, 'map(|q| q - q.floor())', 'map(|q| q - q.ceil())'),
]
BAD.pop(11)
GOOD = [
 (F, LP, '''            let j = vidcs[&ngb.tail];
            let s = ngb.shift.to_vec();
            for k in 0..d {
                t[i][k] += s[k] as i64;
            }
            a[i][i] += 1;
            a[i][j] -= 1;
'''),
 (F, LP, '''            let j = vidcs[&ngb.tail];
            a[i][j] += 1;
            a[i][i] -= 1;

            let s = ngb.shift.to_vec();
            for k in 0..d {
                t[i][k] -= s[k] as i64;
            }
'''),
 (F, LP, '''            let j = vidcs[&ngb.tail];
            let row = &mut a[i];
            row[j] -= 1;
            row[i] += 1;

            for (k, x) in ngb.shift.to_vec().into_iter().enumerate() {
                t[i][k] += x as i64;
            }
'''),
 (F, LP, '''            let j = vidcs[&ngb.tail];
            if i != j {
                a[i][j] -= 1;
                a[i][i] += 1;
            }

            let s = ngb.shift.to_vec();
            for k in 0..d {
                t[i][k] += s[k] as i64;
            }
'''),
 (F, 'for i in 1..n {\n        for ngb in g.incidences(&verts[i]) {', 'for (i, v) in verts.iter().enumerate().skip(1) {\n        for ngb in g.incidences(v) {'),
 (F, 'for i in 1..n {\n        for ngb', 'for i in 0..n {\n        if i == 0 { continue; }\n        for ngb'),
 (F, 'let mut result = BTreeMap::new();\n    for i in 0..n {\n        result.insert(verts[i], Point::new(&p[i]));\n    }\n\n    result', 'verts.iter().zip(p.iter()).map(|(v, x)| (*v, Point::new(x))).collect()'),
 (F, '(0..d).map(|i| &q[i] + BigInt::from(s[i]) - &p[i]).collect()', '(0..d).map(|i| (&q[i] - &p[i]) + BigInt::from(s[i])).collect()'),
 (F, 'self.position(&v).iter().map(|q| q - q.floor()).collect()', 'let p = self.position(v);\n        (0..T::dim()).map(|i| &p[i] - p[i].floor()).collect()'),
 (F, 'verts.iter().enumerate().map(|(i, &e)| (e, i)).collect();', '(0..verts.len()).map(|i| (verts[i], i)).collect();'),
]
