S = 'src/symmetries.rs'
MAP = '''                let shift = aff * (
                    s +
                    shifts.get(&e.tail).unwrap() -
                    shifts.get(&e.head).unwrap()
                );
'''
BAD = [
 (S, 'Matrix::vstack(&rows).transpose().inverse()', 'Matrix::vstack(&rows).inverse()'),
 (S, 'Matrix::vstack(&rows).transpose().inverse().unwrap()', 'Matrix::vstack(&rows).transpose()'),
 (S, MAP, MAP.replace('s +', 's -').replace('unwrap() -', 'unwrap() +')),
 (S, MAP, MAP.replace('shifts.get(&e.tail).unwrap() -\n', 'shifts.get(&e.tail).unwrap() +\n')),
 (S, MAP, MAP.replace('''                    shifts.get(&e.tail).unwrap() -
                    shifts.get(&e.head).unwrap()
''', '''                    shifts.get(&e.tail).unwrap()
''')),
 (S, 'imgs.insert(v, i + 1);', 'imgs.insert(v, i / 2 + 1);'),
 (S, 'shifts.insert(v, &graph.position(&v) - &p0);', 'shifts.insert(v, mod1(&graph.position(&v)) - mod1(&p0));'),
 (S, 'shifts.insert(v, &graph.position(&v) - &p0);', 'shifts.insert(v, &graph.position_normalized(&v) - &p0);'),
 (S, 'let p0 = graph.position(&orbits[i][0]);', 'let p0 = graph.position(&orbits[0][0]);'),
 (S, 'if e == e.canonical() {\n                let head', 'if e == e.canonical() && e.head != e.tail {\n                let head'),
 (S, 'edges.push(Edge::new(head, tail,', 'edges.push(Edge::new(tail, head,'),
 (S, 'for e in graph.directed_edges() {\n            if e == e.can', 'for e in graph.directed_edges().into_iter().skip(1) {\n            if e == e.can'),
 (S, 'if orbits[0].len() == 1 {\n        None', 'if orbits[0].len() <= 2 {\n        None'),
 (S, 'if orbits[0].len() == 1 {\n        None', 'if orbits.len() == 1 {\n        None'),
 (S, 'let deltas: Vec<_> = orbit.iter().skip(1)', 'let deltas: Vec<_> = orbit.iter().skip(2)'),
 (S, 'let deltas: Vec<_> = orbit.iter().skip(1)', 'let deltas: Vec<_> = orbit.iter().take(2).skip(1)'),
 (S, 'graph.position(&v) - p0).iter()\n', 'graph.position_normalized(&v) - p0).iter()\n') if False else
 (S, '.map(|v| (graph.position(&v) - p0).iter()', '.map(|v| (graph.position(&v) - graph.position(v)).iter()'),
 (S, '            .map(|x| x % &BigInt::one())\n', '            .map(|x| x.fract() + x.fract())\n'),
 (S, 'p.iter().map(|x| x - x.floor()).collect()', 'p.iter().map(|x| x.fract()).collect()'),
 (S, 'p.iter().map(|x| x - x.floor()).collect()', 'p.iter().map(|x| x - x.round()).collect()'),
 (S, '    if x.is_integer() {\n        x.to_integer().to_i32()\n    } else {\n        None\n    }', '    x.to_integer().to_i32()'),
]
GOOD = [
 (S, 'Matrix::vstack(&rows).transpose().inverse().unwrap()', 'Matrix::vstack(&rows).inverse().unwrap().transpose()'),
 (S, '''            if e == e.canonical() {
                let head =''', '''            if e != e.canonical() {
                continue;
            }
            {
                let head ='''),
 (S, MAP, '''                let a = &(s - shifts.get(&e.head).unwrap()) + shifts.get(&e.tail).unwrap();
                let shift = aff * a;
'''),
 (S, '            .map(|x| x % &BigInt::one())\n', '            .map(|x| x - x.floor())\n'),
 (S, '''        for i in 0..orbits.len() {
            let p0 = graph.position(&orbits[i][0]);
            for v in &orbits[i] {
''', '''        for (i, orbit) in orbits.iter().enumerate() {
            let p0 = graph.position(&orbit[0]);
            for v in orbit {
'''),
 (S, '''    if orbits[0].len() == 1 {
        None
    } else {
        let b =''', '''    if orbits[0].len() < 2 {
        return None;
    }
    {
        let b ='''),
 (S, '''        let rows = b.iter().map(|v| Matrix::row(v)).collect::<Vec<_>>();
''', '''        let mut rows = vec![];
        for v in &b {
            rows.push(Matrix::row(v));
        }
'''),
 (S, '''    if x.is_integer() {
        x.to_integer().to_i32()
    } else {
        None
    }''', '''    if !x.is_integer() {
        return None;
    }
    x.numer().to_i32()'''),
]
