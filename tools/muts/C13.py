T = 'src/spacegroups/types.rs'
P = 'src/spacegroups/parse_table.rs'
BAD = [
 (T, 'CrystalSystem::Trigonal => write!(f, "trigonal")?', 'CrystalSystem::Trigonal => write!(f, "tetragonal")?'),
 (T, 'CrystalSystem::Oblique => write!(f, "oblique")?', 'CrystalSystem::Oblique => write!(f, "Oblique ")?'),
 (T, 'Centering::CFaceCentered => write!(f, "C")?', 'Centering::CFaceCentered => write!(f, "c")?'),
 (T, 'Centering::BodyCentered => write!(f, "I")?', 'Centering::BodyCentered => write!(f, "B")?'),
 (P, '"triclinic" => Some(CrystalSystem::Triclinic)', '"triclinic" => Some(CrystalSystem::Monoclinic)'),
 (P, '            "trigonal" => Some(CrystalSystem::Trigonal),\n', ''),
 (P, 'match &s.to_lowercase()[..] {', 'match s {'),
 (P, '"A" => Some(Centering::AFaceCentered),\n            "B" => Some(Centering::BFaceCentered)', '"A" => Some(Centering::BFaceCentered),\n            "B" => Some(Centering::AFaceCentered)'),
 (P, '"C" => Some(Centering::CFaceCentered),\n            _ => None,', '"C" => Some(Centering::CFaceCentered),\n            _ => Some(Centering::Primitive),'),
 (P, 'if s == lkp.system && c == lkp.centering {', 'if s == lkp.system || c == lkp.centering {'),
 (P, 'if s == lkp.system && c == lkp.centering {', 'if c == lkp.centering {'),
 (P, 'self.lookup.iter().filter_map', 'self.lookup.iter().skip(1).filter_map'),
 (P, 'match s {\n            "p"', 'match &s.to_lowercase()[..] {\n            "p"'),
]
GOOD = [
 (T, 'CrystalSystem::Trigonal => write!(f, "trigonal")?', 'CrystalSystem::Trigonal => f.write_str("trigonal")?'),
 (T, 'Centering::CFaceCentered => write!(f, "C")?', 'Centering::CFaceCentered => write!(f, "{}", "C")?'),
 (P, 'match &s.to_lowercase()[..] {', 'let s = s.to_ascii_lowercase();\n        match s.as_str() {'),
 (P, 'match &s.to_lowercase()[..] {', 'if s.eq_ignore_ascii_case("cubic") {\n            return Some(CrystalSystem::Cubic);\n        }\n        match &s.to_lowercase()[..] {'),
 (P, 'if s == lkp.system && c == lkp.centering {', 'if lkp.centering == c && lkp.system == s {'),
 (P, '''        self.lookup.iter().filter_map(|lkp|
            if s == lkp.system && c == lkp.centering {
                Some((lkp.name.clone(), lkp.from_std.clone()))
            } else {
                None
            }
        ).collect()''', '''        let mut out = vec![];
        for lkp in &self.lookup {
            if s != lkp.system || c != lkp.centering {
                continue;
            }
            out.push((lkp.name.clone(), lkp.from_std.clone()));
        }
        out'''),
]
