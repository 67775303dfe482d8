O = 'src/spacegroups/parse_operator.rs'
P = 'src/spacegroups/parse_table.rs'
A1 = '''        map_opt(
            separated_pair(unsigned_fraction, char('*'), axis),
            |(q, a)| Some((q, a))
        ),
'''
A2 = '''        map_opt(
            separated_pair(unsigned_fraction, space0, axis),
            |(q, a)| Some((q, a))
        ),
'''
A3 = '''        map_opt(unsigned_fraction, |q| Some((q, Axis::None))),
'''
BAD = [
 (O, A1, ''),
 (O, A2 + A3, A3 + A2),
 (O, "'-' => Some(-1),", "'-' => Some(1),"),
 (O, "'y' => Some(Axis::Y),\n        'z' => Some(Axis::Z),", "'y' => Some(Axis::Z),\n        'z' => Some(Axis::Y),"),
 (O, 'one_of("xyz")', 'one_of("xy")'),
 (O, 'Some(Ratio::new(n as i32, d as i32))', 'Some(Ratio::new(d as i32, n as i32))'),
 (O, 'Some((Ratio::from_integer(s) * q, a))', 'Some((q, a))'),
 (O, 'Some((Ratio::from_integer(s) * q, a))', 'Some((Ratio::from_integer(s) + q, a))'),
 (O, 'Axis::Z => row[2] = q.checked_add(&row[2])?,', 'Axis::Z => row[2] = q,'),
 (O, 'Axis::Y => row[1] = q.checked_add(&row[1])?,', 'Axis::Y => row[1] = q.checked_add(&row[0])?,'),
 (O, 'Axis::None => shift = q.checked_add(&shift)?,', 'Axis::None => shift = q,'),
 (O, 'for (q, a) in iter::once(first).chain(rest) {', 'for (q, a) in iter::once(first).chain(rest.into_iter().take(2)) {'),
 (O, 'r.iter().skip(n).any(|x| *x != Ratio::new(0, 1))', 'false'),
 (O, 'r.iter().skip(n).any(|x| *x != Ratio::new(0, 1))', 'r.iter().skip(n + 1).any(|x| *x != Ratio::new(0, 1))'),
 (O, 'n * 10 + c.to_digit(10).unwrap()', 'n + c.to_digit(10).unwrap()'),
 (O, "many0(preceded(space0, signed_term))", "many0(signed_term)"),
 (O, "many0(preceded(space0, signed_term))", "many0(preceded(space0, term))"),
 (O, "tuple((space0, char(','), space0)), coordinate", "tuple((char(','), space0)), coordinate"),
 (O, "map_opt(axis, |a| Some((Ratio::from_integer(1), a)))", "map_opt(axis, |a| Some((Ratio::from_integer(0), a)))"),
 (P, 'if !rest.is_empty() || linear.len() != shift.len() {', 'if linear.len() != shift.len() {'),
 (P, 'let t = Vector::new(&promote_vec(&shift));', 'let t = Vector::zero(shift.len());'),
 (P, 'let a = Matrix::vstack(&rows);', 'let a = Matrix::vstack(&rows).transpose();'),
 (P, 'if k > 0 && val.is_positive() {', 'if k > 1 && val.is_positive() {'),
 (P, 'if k > 0 && val.is_positive() {', 'if val.is_positive() && !axis.is_empty() {'),
 (P, 'if axis.is_empty() || !val.abs().is_one() {', 'if !val.abs().is_one() {'),
 (P, 'if axis.is_empty() || !val.abs().is_one() {', 'if axis.is_empty() || !val.is_one() {'),
 (P, 'write!(f, "{}", val.abs())?;', 'write!(f, "{}", val.numer())?;'),
 (P, '["x", "y", "z"][j]', '["x", "z", "y"][j]'),
 (P, 'write_op_row(f, op.linear_matrix().get_row(i), &op.shift()[i])?;', 'write_op_row(f, op.linear_matrix().get_col(i), &op.shift()[i])?;'),
 (P, 'write_op_row(f, op.linear_matrix().get_row(i), &op.shift()[i])?;', 'write_op_row(f, op.linear_matrix().get_row(i), &op.shift()[0])?;'),
 (P, '            if i > 0 {\n                write!(f, ",")?;', '            if i > 1 {\n                write!(f, ",")?;'),
]
GOOD = [
 (O, A1 + A2, A2 + A1),
 (O, A1 + A2, '''        map_opt(
            separated_pair(unsigned_fraction, alt((tag("*"), space0)), axis),
            |(q, a)| Some((q, a))
        ),
''', [('use nom::branch::alt;', 'use nom::branch::alt;\nuse nom::bytes::complete::tag;')]) if False else
 (O, A1 + A2, A2 + A1),
 (O, 'Some((Ratio::from_integer(s) * q, a))', 'Some((q * s, a))'),
 (O, '''        match a {
            Axis::X => row[0] = q.checked_add(&row[0])?,''', '''        match a {
            Axis::X => row[0] = row[0].checked_add(&q)?,'''),
 (O, '    alt((signed_term, unsigned_term))(input)', '    alt((unsigned_term, signed_term))(input)'),
 (O, '''    map_opt(one_of("+-"), map_sign)(input)''', '''    map_opt(one_of("-+"), |c| map_sign(c))(input)'''),
 (O, "tuple((space0, char(','), space0)), coordinate", "delimited(space0, char(','), space0), coordinate"),
 (O, '''            |(n, d)| if d != 0 {
                Some(Ratio::new(n as i32, d as i32))
            } else {
                None
            }''', '''            |(n, d)| if d == 0 { None } else { Some(Ratio::new(n as i32, d as i32)) }'''),
 (P, '''            if k > 0 && val.is_positive() {
                write!(f, "+")?;
            } else if val.is_negative() {
                write!(f, "-")?;
            }''', '''            if val.is_negative() {
                write!(f, "-")?;
            } else if k > 0 {
                f.write_str("+")?;
            }'''),
 (P, '''            if axis.is_empty() || !val.abs().is_one() {
                write!(f, "{}", val.abs())?;
            }
            write!(f, "{}", axis)?;''', '''            if !axis.is_empty() && val.abs().is_one() {
                write!(f, "{}", axis)?;
            } else {
                write!(f, "{}{}", val.abs(), axis)?;
            }'''),
 (P, '''        if !rest.is_empty() || linear.len() != shift.len() {
            None
        } else {''', '''        if !rest.is_empty() {
            return None;
        }
        if linear.len() != shift.len() {
            None
        } else {'''),
 (P, '''            if i > 0 {
                write!(f, ",")?;
            }
            write_op_row(f, op''', '''            if i != 0 {
                write!(f, ", ")?;
            }
            write_op_row(f, op'''),
]
