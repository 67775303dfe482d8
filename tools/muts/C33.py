P = 'src/spacegroups/parse_table.rs'
BAD = [
 (P, "if content.is_empty() || content.starts_with('#') {", "if content.is_empty() || line.starts_with('#') {"),
 (P, "if content.is_empty() || content.starts_with('#') {", "if content.is_empty() || content.contains('#') {"),
 (P, "else if line.starts_with(' ') {", "else if line.starts_with(\"  \") {"),
 (P, 'settings.get_mut(&current_name)?.operators.push(op);', 'if let Some(s) = settings.get_mut(&current_name) { s.operators.push(op); }'),
 (P, 'settings.get_mut(&current_name)?.operators.push(op);', 'settings.get_mut(&canonical_name)?.operators.push(op);'),
 (P, 'settings.get_mut(&current_name)?.operators.push(op);', 'settings.get_mut(&current_name)?.operators.insert(0, op);'),
 (P, 'let op = AffineMap::from_string(content)?;\n            settings.get_mut(&current_name)?.operators.push(op);', 'if let Some(op) = AffineMap::from_string(content) {\n            settings.get_mut(&current_name)?.operators.push(op); }'),
 (P, 'if fields[0].to_lowercase() == "alias" {', 'if fields[0] == "alias" {'),
 (P, 'if fields[0].to_lowercase() == "lookup" {', 'if fields[0].to_lowercase().starts_with("lookup") {'),
 (P, 'alias.insert((*fields.get(1)?).into(), (*fields.get(2)?).into());', 'alias.insert((*fields.get(2)?).into(), (*fields.get(1)?).into());'),
 (P, 'alias.insert((*fields.get(1)?).into(), (*fields.get(2)?).into());', 'if fields.len() > 2 { alias.insert(fields[1].into(), fields[2].into()); }'),
 (P, 'lookup.push(make_lookup_entry(&fields)?);', 'lookup.extend(make_lookup_entry(&fields));'),
 (P, 'if transform.is_identity() {', 'if transform.is_identity() || canonical_name.is_empty() {'),
 (P, 'let spec = fields[1..].join(" ");', 'let spec = fields[1].to_string();'),
 (P, 'let spec = fields.get(4..)?.join(" ");', 'let spec = fields.get(4)?.to_string();'),
 (P, 'let name = fields.get(1)?.to_string();', 'let name = fields.get(1)?.to_lowercase();'),
 (P, 'let line = line.ok()?;', 'let line = match line { Ok(s) => s, Err(_) => continue };'),
 (P, 'let line = line.ok()?;', 'let line = match line { Ok(s) => s, Err(_) => break };'),
 (P, '''                let canonical_name = canonical_name.clone(); // local copy''', '''                let canonical_name = name.clone(); // local copy'''),
 (P, 'for line in BufReader::new(input).lines() {\n        let line = line.ok()?;', 'for line in BufReader::new(input).lines().skip(1) {\n        let line = line.ok()?;'),
]
GOOD = [
 (P, "if content.is_empty() || content.starts_with('#') {", "if content.len() == 0 || content.starts_with(\"#\") {"),
 (P, 'let line = line.ok()?;', 'let line = match line { Ok(s) => s, Err(_) => return None };'),
 (P, '''            let fields: Vec<_> = content.split_whitespace().collect();

            if fields[0].to_lowercase() == "alias" {
                alias''', '''            let fields: Vec<_> = line.split_whitespace().collect();
            let keyword = fields[0].to_lowercase();

            if keyword == "alias" {
                alias'''),
 (P, '''            if fields[0].to_lowercase() == "alias" {''', '''            if fields[0].eq_ignore_ascii_case("alias") {'''),
 (P, 'let spec = fields[1..].join(" ");', 'let spec: String = fields[1..].concat();'),
 (P, '''                let canonical_name = canonical_name.clone(); // local copy
                let operators = vec![];
                settings.insert(
                    current_name.clone(),
                    TableEntry{ name, canonical_name, transform, operators }
                );''', '''                settings.insert(name.clone(), new_entry(name, canonical_name.clone(), transform));''') if False else
 [(P, '''                let canonical_name = canonical_name.clone(); // local copy
                let operators = vec![];
                settings.insert(
                    current_name.clone(),
                    TableEntry{ name, canonical_name, transform, operators }
                );''', '''                settings.insert(name.clone(), new_entry(name, canonical_name.clone(), transform));'''), (P, 'fn make_lookup_entry(', '''fn new_entry(name: String, canonical_name: String, transform: SettingCoordinateMap) -> TableEntry {
    TableEntry { name, canonical_name, transform, operators: vec![] }
}


fn make_lookup_entry(''')],
 (P, '''    let system = CrystalSystem::from_string(fields[2])?;
    let centering = Centering::from_string(fields[3])?;''', '''    let centering = Centering::from_string(fields.get(3)?)?;
    let system = CrystalSystem::from_string(fields.get(2)?)?;'''),
 (P, 'settings.get_mut(&current_name)?.operators.push(op);', 'match settings.get_mut(&current_name) {\n Some(e) => e.operators.push(op),\n None => return None,\n }'),
]
