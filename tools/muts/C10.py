L = 'src/io/parse_cgd_line.rs'
B = 'src/io/parse_cgd_blocks.rs'
O = 'src/spacegroups/parse_operator.rs'
T = 'src/spacegroups/parse_table.rs'
BAD = [
 (T, '(*fields.get(1)?).into(), (*fields.get(2)?).into()', 'fields[1].into(), fields[2].into()'),
 (T, '(*fields.get(2)?).into()', 'fields[2].into()'),
 (T, 'let name = fields.get(1)?.to_string();', 'let name = fields[1].to_string();'),
 (T, 'fields.get(4..)?.join(" ")', 'fields[4..].join(" ")'),
 (T, 'fields.get(4..)?.join(" ")', 'fields.get(3..)?.join(" ")'),
 (T, '        forward.inverse()?; // reject singular transformations\n', ''),
 (T, 'let line = line.ok()?;', 'let line = line.unwrap();'),
 (T, 'settings.get_mut(&current_name)?.operators', 'settings.get_mut(&current_name).unwrap().operators'),
 (T, "content.is_empty() || content.starts_with('#')", "line.is_empty() || content.starts_with('#')"),
 (T, "content.is_empty() || content.starts_with('#')", "content.starts_with('#')"),
 (T, 'CrystalSystem::from_string(fields[2])?', 'CrystalSystem::from_string(fields[2]).unwrap()'),
 (T, 'AffineMap::from_string(content)?', 'AffineMap::from_string(content).unwrap()'),
 (T, "content.starts_with('#')", '&content[..1] == "#"'),
 (T, 'parse_operator(s).ok()?', 'parse_operator(s).unwrap()'),
 (L, 'if d != 0 { Some(Ratio::new(n, d as i32)) } else { None }', 'Some(Ratio::new(n, d as i32))'),
 (L, 'if d != 0 {', 'if n != 0 {'),
 (L, 'digits.len() <= 9', 'digits.len() <= 10'),
 (L, '''    if digits.len() <= 9 {
        Some(digits.chars().fold(0, |n, c| n * 10 + c.to_digit(10).unwrap()))
    } else {
        None
    }''', '''    Some(digits.parse().unwrap())'''),
 (L, 'map_opt(digit1, map_integer)', "map_opt(take_till1(|c: char| !c.is_numeric()), map_integer)"),
 (L, 'map_opt(digit1, map_integer)', "map_opt(take_till1(|c: char| !c.is_ascii_hexdigit()), map_integer)"),
 (L, '''        name,
        |s| match s.bytes().nth(0) {
            Some(b) if is_alphabetic(b) => Some(s),
            _ => None,
        }''', '''        name,
        |s| if is_alphabetic(s.as_bytes()[1]) { Some(s) } else { None }'''),
 (L, "map_opt(name, |f| Some(Field::Name(f.to_string())))", "map_opt(name, |f| Some(Field::Name(f[1..].to_string())))"),
 (B, '''                    if fields.len() == 0 {
                        current_entry.entry_type = EntryType::Empty;
                    } else if let''', '''                    if s.trim().is_empty() {
                        current_entry.entry_type = EntryType::Empty;
                    } else if let'''),
 (B, '''                    if fields.len() == 0 {
                        current_entry.entry_type = EntryType::Empty;
                    } else if let''', '''                    if rest.len() > 0 && fields.len() == 0 {
                        current_entry.entry_type = EntryType::Empty;
                    } else if let'''),
 (B, 'for line in BufReader::new(input).lines() {', 'for line in BufReader::new(input).lines().map(|l| Ok::<String, String>(l.unwrap())) {'),
 (B, 'fields[1..].to_vec()', 'fields[2..].to_vec()'),
 (B, '''            Ok(s) => match parse_cgd_line(&s) {
                Err(e) => {
                    current_entry.entry_type = EntryType::Error;
                    current_entry.content = Some(s);
                    current_entry.add_error(&e);
                },
                Ok((rest, fields)) => {''', '''            Ok(s) => match parse_cgd_line(&s) {
                Err(e) => panic!("{}", e),
                Ok((rest, fields)) => {'''),
 (O, '''            |(n, d)| if d != 0 {
                Some(Ratio::new(n as i32, d as i32))
            } else {
                None
            }''', '''            |(n, d)| Some(Ratio::new(n as i32, d as i32))'''),
 (O, 'if n > r.len() || r.iter()', 'if r.iter()'),
 (O, 'if n > r.len() || r.iter().skip(n).any(', 'if r[n..].iter().any('),
 (O, 'r.iter().take(n).copied().collect()', 'r[..n].to_vec()', ) if False else
 [(O, 'if n > r.len() || r.iter()', 'if r.iter()'), (O, 'r.iter().take(n).copied().collect()', 'r[..n].to_vec()')],
 (O, 'Axis::X => row[0] = q.checked_add(&row[0])?', 'Axis::X => row[0] = q + row[0]'),
 (O, 'Axis::None => shift = q.checked_add(&shift)?', 'Axis::None => shift += q'),
 (O, 'vec![Ratio::new(0, 1); 3]', 'vec![Ratio::new(0, 1); 2]'),
 (O, 'digits.len() <= 9', 'digits.len() <= 12'),
 (O, 'Axis::Y => row[1] = q.checked_add(&row[1])?', 'Axis::Y => row[1] = q.checked_add(&row[1]).unwrap()'),
]
GOOD = [
 (T, 'let name = fields.get(1)?.to_string();', 'if fields.len() < 2 { return None; }\n    let name = fields[1].to_string();'),
 (T, '(*fields.get(1)?).into(), (*fields.get(2)?).into()', '{ if fields.len() < 3 { return None; } fields[1].into() }, fields[2].into()'),
 (T, 'if fields[0].to_lowercase() == "alias" {', 'if fields.first()?.to_lowercase() == "alias" {'),
 (T, 'fields.get(4..)?.join(" ")', '{ if fields.len() < 4 { return None; } fields[4..].join(" ") }'),
 (T, '''        forward.inverse()?; // reject singular transformations

        Some(CoordinateMap::new(&forward))''', '''        if forward.inverse().is_none() {
            return None;
        }
        Some(CoordinateMap::new(&forward))'''),
 (T, 'let line = line.ok()?;', 'let line = match line { Ok(l) => l, Err(_) => return None };'),
 (T, "content.is_empty() || content.starts_with('#')", "content.len() == 0 || content.starts_with('#')"),
 (T, "content.is_empty() || content.starts_with('#')", "content.chars().next().map_or(true, |c| c == '#')"),
 (T, 'if !rest.is_empty() || linear.len() != shift.len() {', 'if rest.len() != 0 || linear.len() != shift.len() {'),
 (T, '            settings.get_mut(&current_name)?.operators.push(op);', '            if !settings.contains_key(&current_name) { return None; }\n            settings.get_mut(&current_name).unwrap().operators.push(op);'),
 (L, 'if d != 0 { Some(Ratio::new(n, d as i32)) } else { None }', 'if d == 0 { None } else { Some(Ratio::new(n, d as i32)) }'),
 (L, 'if d != 0 { Some(Ratio::new(n, d as i32)) } else { None }', 'if d > 0 { Some(Ratio::new(n, d as i32)) } else { None }'),
 (L, 'if d != 0 { Some(Ratio::new(n, d as i32)) } else { None }', 'match d { 0 => None, _ => Some(Ratio::new(n, d as i32)) }'),
 (L, 'if digits.len() <= 9 {', 'if digits.len() < 10 {'),
 (L, '''    if digits.len() <= 9 {
        Some(digits.chars().fold(0, |n, c| n * 10 + c.to_digit(10).unwrap()))
    } else {
        None
    }''', '''    if digits.len() <= 9 { digits.parse().ok() } else { None }'''),
 (L, '''    if digits.len() <= 9 {
        Some(digits.chars().fold(0, |n, c| n * 10 + c.to_digit(10).unwrap()))
    } else {
        None
    }''', '''    if digits.len() <= 9 { Some(digits.parse().unwrap()) } else { None }'''),
 (L, '''    if digits.len() <= 9 {
        Some(digits.chars().fold(0, |n, c| n * 10 + c.to_digit(10).unwrap()))
    } else {
        None
    }''', '''    if digits.len() > 9 {
        return None;
    }
    let mut n = 0;
    for c in digits.chars() {
        n = n * 10 + c.to_digit(10).unwrap();
    }
    Some(n)'''),
 (L, '''        |s| match s.bytes().nth(0) {
            Some(b) if is_alphabetic(b) => Some(s),
            _ => None,
        }''', '''        |s| if is_alphabetic(s.as_bytes()[0]) { Some(s) } else { None }'''),
 (L, '''        |s| match s.bytes().nth(0) {
            Some(b) if is_alphabetic(b) => Some(s),
            _ => None,
        }''', '''        |s| if is_alphabetic(s.bytes().next().unwrap()) { Some(s) } else { None }'''),
 (B, 'if fields.len() == 0 {', 'if fields.is_empty() {'),

 (B, '''                    if fields.len() == 0 {
                        current_entry.entry_type = EntryType::Empty;
                    } else if let Field::Key(s) = &fields[0] {
                        current_entry.key = Some(s.to_lowercase());
                        current_entry.fields = fields[1..].to_vec();
                    } else {
                        current_entry.fields = fields;
                    }''', '''                    match fields.split_first() {
                        None => current_entry.entry_type = EntryType::Empty,
                        Some((Field::Key(s), tail)) => {
                            current_entry.key = Some(s.to_lowercase());
                            current_entry.fields = tail.to_vec();
                        }
                        _ => current_entry.fields = fields,
                    }'''),
 (O, 'r.iter().take(n).copied().collect()', 'r[..n].to_vec()'),
 (O, 'if n > r.len() || r.iter().skip(n).any(', 'if n > r.len() || r[n..].iter().any('),
 (O, '''    let n = op.len();
''', '''    let n = op.len();
    if n > 3 {
        return None;
    }
'''),
 [(O, '''    let n = op.len();
''', '''    let n = op.len();
    if n > 3 {
        return None;
    }
'''), (O, 'if n > r.len() || r.iter()', 'if r.iter()')],
 (O, '''    for (q, a) in iter::once(first).chain(rest) {''', '''    let mut all = vec![first];
    all.extend(rest);
    for (q, a) in all {'''),
 (O, '''        match a {
            Axis::X => row[0] = q.checked_add(&row[0])?,
            Axis::Y => row[1] = q.checked_add(&row[1])?,
            Axis::Z => row[2] = q.checked_add(&row[2])?,
            Axis::None => shift = q.checked_add(&shift)?,
        }''', '''        let target = match a {
            Axis::X => &mut row[0],
            Axis::Y => &mut row[1],
            Axis::Z => &mut row[2],
            Axis::None => &mut shift,
        };
        *target = q.checked_add(&*target)?;'''),

 (T, """    let name = fields.get(1)?.to_string();
    let spec = fields.get(4..)?.join(" ");
    let from_std = CoordinateMap::from_string(&spec)?;

    let system = CrystalSystem::from_string(fields[2])?;
    let centering = Centering::from_string(fields[3])?;
    Some(Lookup { name, system, centering, from_std })""", """    match fields[..] {
        [_, name, system, centering, ref spec @ ..] => {
            let from_std = CoordinateMap::from_string(&spec.join(" "))?;
            let system = CrystalSystem::from_string(system)?;
            let centering = Centering::from_string(centering)?;
            Some(Lookup { name: name.to_string(), system, centering, from_std })
        }
        _ => None,
    }"""),
 (T, """            let fields: Vec<_> = content.split_whitespace().collect();

            if fields[0].to_lowercase() == "alias" {""", """            let fields: Vec<_> = content.split_whitespace().collect();
            let tag = content.split_whitespace().next().unwrap().to_lowercase();

            if tag == "alias" {"""),
 (T, """                alias.insert((*fields.get(1)?).into(), (*fields.get(2)?).into());""", """                if let [_, from, to, ..] = fields[..] {
                    alias.insert(from.into(), to.into());
                } else {
                    return None;
                }"""),
 (T, "let spec = fields[1..].join(\" \");", "let spec = fields.iter().skip(1).copied().collect::<Vec<_>>().join(\" \");"),
 (T, "let name = fields[0].to_string();", "let name = fields.first().unwrap().to_string();"),
 (T, "AffineMap::from_string(content)?", "AffineMap::from_string(&line[1..])?"),
 (L, """    if digits.len() <= 9 {
        Some(digits.chars().fold(0, |n, c| n * 10 + c.to_digit(10).unwrap()))
    } else {
        None
    }""", """    digits.chars().try_fold(0u32, |n, c| n.checked_mul(10)?.checked_add(c.to_digit(10)?)).filter(|n| *n < 1000000000)"""),
 (L, """        |s| match s.bytes().nth(0) {
            Some(b) if is_alphabetic(b) => Some(s),
            _ => None,
        }""", """        |s| {
            let b = s.as_bytes();
            if b.len() > 0 && is_alphabetic(b[0]) { Some(s) } else { None }
        }"""),
 (B, """    if let Some(last_entry) = current_block.entries.last_mut() {
        current_block.lineno_end""", """    if !current_block.entries.is_empty() {
        let last_entry = current_block.entries.last_mut().unwrap();
        current_block.lineno_end"""),
 (B, """    if let Some(last_entry) = current_block.entries.last_mut() {
        current_block.lineno_end""", """    let n = current_block.entries.len();
    if n > 0 {
        let last_entry = &mut current_block.entries[n - 1];
        current_block.lineno_end"""),
 (O, """        match a {
            Axis::X => row[0] = q.checked_add(&row[0])?,
            Axis::Y => row[1] = q.checked_add(&row[1])?,
            Axis::Z => row[2] = q.checked_add(&row[2])?,
            Axis::None => shift = q.checked_add(&shift)?,
        }""", """        let k = match a {
            Axis::X => 0,
            Axis::Y => 1,
            Axis::Z => 2,
            Axis::None => 3,
        };
        if k < 3 {
            row[k] = q.checked_add(&row[k])?;
        } else {
            shift = q.checked_add(&shift)?;
        }"""),
 (O, """    for (r, s) in op {
        if n > r.len() || r.iter().skip(n).any(|x| *x != Ratio::new(0, 1)) {
            return None;
        }
        rows.push(r.iter().take(n).copied().collect());
        shift.push(*s);
    }""", """    for (r, s) in op {
        if n > r.len() {
            return None;
        }
        let (head, tail) = r.split_at(n);
        if tail.iter().any(|x| *x != Ratio::new(0, 1)) {
            return None;
        }
        rows.push(head.to_vec());
        shift.push(*s);
    }"""),
 (O, """    for (r, s) in op {
        if n > r.len() || r.iter().skip(n).any(|x| *x != Ratio::new(0, 1)) {
            return None;
        }
        rows.push(r.iter().take(n).copied().collect());
        shift.push(*s);
    }""", """    for i in 0..n {
        let (r, s) = &op[i];
        if n > r.len() || (n..r.len()).any(|j| r[j] != Ratio::new(0, 1)) {
            return None;
        }
        rows.push((0..n).map(|j| r[j]).collect());
        shift.push(*s);
    }"""),
 [(O, """    for (r, s) in op {
        if n > r.len() || r.iter().skip(n).any(|x| *x != Ratio::new(0, 1)) {
            return None;
        }
        rows.push(r.iter().take(n).copied().collect());
        shift.push(*s);
    }""", """    for (r, s) in op {
        if !fits(r, n) {
            return None;
        }
        let mut row = vec![];
        for j in 0..n {
            row.push(r[j]);
        }
        rows.push(row);
        shift.push(*s);
    }"""),
  (O, "fn collect_terms(", "fn fits(r: &Vec<Ratio<i32>>, n: usize) -> bool {\n    n <= r.len() && !r.iter().skip(n).any(|x| *x != Ratio::new(0, 1))\n}\n\nfn collect_terms(")],
]
