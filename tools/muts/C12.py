F = 'src/io/parse_cgd_line.rs'
BAD = [
 (F, "take_till1(|c| c == '\"' || c == '#' || c == ' ' || c == '\\t')", "take_till1(|c: char| { let b = c as u8; b == b'\"' || b == b'#' || b == b' ' || b == b'\\t' })"),
 (F, "take_till1(|c| c == '\"' || c == '#' || c == ' ' || c == '\\t')", "take_till1(|c| c == '\"' || c == '#' || c == ' ')"),
 (F, "take_till1(|c| c == '\"' || c == '#' || c == ' ' || c == '\\t')", "take_till1(|c| c == '#' || c == ' ' || c == '\\t')"),
 (F, 'if !f.is_finite() {\n        None\n    } else if f ==', 'if f =='),
 (F, 'f == (f as i32) as f64', 'f == (f as i64) as f64'),
 (F, 'f == (f as i32) as f64', 'f == (f as i32 as f64).abs()'),
 (F, '''        map_opt(fraction, |f| Some(Field::Fraction(f))),
        map_opt(double, double_to_field()),
''', '''        map_opt(double, double_to_field()),
        map_opt(fraction, |f| Some(Field::Fraction(f))),
'''),
 (F, 'digits.len() <= 9', 'digits.len() <= 10'),
 (F, '|(n, d)| if d != 0 { Some(Ratio::new(n, d as i32)) } else { None }', '|(n, d)| if d != 0 { Some(Ratio::new(d as i32, n)) } else { None }'),
 (F, '|(n, d)| if d != 0 {', '|(n, d)| if d > 1 {'),
 (F, 'Some(-(n as i32))', 'Some(n as i32)'),
 (F, '''    delimited(char('"'), take_until1("\\""), char('"'))''', '''    delimited(pair(char('"'), space0), take_until1("\\""), char('"'))'''),
 (F, '''        map_opt(key, |k| Some(vec![Field::Key(k.to_string())])),
        separated_list0(space1, field),
    ))''', '''        separated_list0(space1, field),
        map_opt(key, |k| Some(vec![Field::Key(k.to_string())])),
    ))'''),
 (F, 'iter::once(Field::Key(k.to_string())).chain(rest).collect()', 'rest.into_iter().chain(iter::once(Field::Key(k.to_string()))).collect()'),
 (F, 'Some(b) if is_alphabetic(b) => Some(s)', 'Some(b) if is_alphabetic(b) || b == b\'_\' => Some(s)'),
 (F, 'map_opt(quoted_string, |f| Some(Field::Name(f.to_string())))', 'map_opt(quoted_string, |f| Some(Field::Name(f.trim().to_string())))'),
 (F, 'map_opt(pair(tag("#"), rest), |_| Some(()))', 'map_opt(pair(tag("# "), rest), |_| Some(()))'),
 (F, 'Ok((rest, fields)) => Ok((rest, fields)),', 'Ok((rest, fields)) => Ok((rest.trim_start_matches(\'"\'), fields)),'),
 (F, 'Ok((rest, fields)) => Ok((rest, fields)),', 'Ok((_, fields)) => Ok(("", fields)),'),
 (F, 'pair(space0, opt(comment))', 'preceded(space0, opt(rest))'),
 (F, 'map_opt(name, |f| Some(Field::Name(f.to_string())))', 'map_opt(name, |f| Some(Field::Key(f.to_string())))'),
]
GOOD = [
 (F, "take_till1(|c| c == '\"' || c == '#' || c == ' ' || c == '\\t')", "take_till1(|c: char| ['\\t', ' ', '#', '\"'].contains(&c))"),
 (F, "take_till1(|c| c == '\"' || c == '#' || c == ' ' || c == '\\t')", "take_till1(|c| matches!(c, '\"' | '#' | ' ' | '\\t'))"),
 (F, '|f| if !f.is_finite() {\n        None\n    } else if f == (f as i32) as f64 {\n        Some(Field::Int(f as i32))\n    } else {\n        Some(Field::Double(f))\n    }', '|f| {\n if f.is_nan() || f.is_infinite() {\n        return None;\n    }\n    let n = f as i32;\n    if f64::from(n) == f {\n        Some(Field::Int(n))\n    } else {\n        Some(Field::Double(f))\n    }\n }'),
 (F, '|(n, d)| if d != 0 { Some(Ratio::new(n, d as i32)) } else { None }', '|(n, d)| if d == 0 { None } else { Some(Ratio::new(n, d as i32)) }'),
 (F, '        |s| match s.bytes().nth(0) {\n            Some(b) if is_alphabetic(b) => Some(s),\n            _ => None,\n        }', '        |s| match s.as_bytes().first() {\n            Some(&b) if is_alphabetic(b) => Some(s),\n            _ => None,\n        }'),
 (F, '''    match line(input).finish() {
        Ok((rest, fields)) => Ok((rest, fields)),
        Err(err) => Err(err.to_string()),
    }''', '''    line(input).finish().map_err(|err| err.to_string())'''),
 (F, 'iter::once(Field::Key(k.to_string())).chain(rest).collect()', '{ let mut out = vec![Field::Key(k.to_string())]; out.extend(rest); out }', ),
 (F, '''        map_opt(
            separated_pair(key, space1, separated_list0(space1, field)),
''', '''        map_opt(
            separated_pair(key, space1, fields),
''') if False else (F, '''        map_opt(quoted_string, |f| Some(Field::Name(f.to_string()))),
        map_opt(name, |f| Some(Field::Name(f.to_string()))),''', '''        map_opt(alt((quoted_string, name)), |f| Some(Field::Name(f.to_string()))),'''),
 (F, 'if digits.len() <= 9 {\n        Some(digits.chars().fold(0, |n, c| n * 10 + c.to_digit(10).unwrap()))\n    } else {\n        None\n    }', 'if digits.len() > 9 {\n        None\n    } else {\n        digits.parse().ok()\n    }'),
]
