P = 'src/pgraphs.rs'
M = 'src/arithmetic/matrices.rs'
G = 'src/arithmetic/geometry.rs'
T = 'src/spacegroups/parse_table.rs'
L3 = 'f.write_fmt(format_args!("({}, {}, {})", self.x, self.y, self.z))'
L2 = 'f.write_fmt(format_args!("({}, {})", self.x, self.y))'
E_ = '''f.write_fmt(format_args!(
            "{} --{}-> {}", self.head, self.shift, self.tail
        ))'''
GR = '''        for e in &self.edges {
            write!(f, "{}", e)?;
            write!(f, "\\n")?;
        }

        Ok(())
'''
MX = '''        for i in 0..nrows {
            for j in 0..ncols {
                write!(f, " {}", self[(i, j)])?;
            }
            write!(f, "\\n")?;
        }
'''
AF = '''            for j in 0..n {
                write!(f, " {}", m[(i, j)])?;
            }
            write!(f, "    {}\\n", t[i])?;
'''
BAD = [
 (P, L3, L3.replace('self.x, self.y', 'self.y, self.x')),
 (P, L3, L3.replace('{}, {}, {}', '{}, {},{}')),
 (P, L3, 'if self.z == 0 { f.write_fmt(format_args!("({}, {})", self.x, self.y)) } else { ' + L3 + ' }'),
 (P, L2, L2.replace('{}, {}', '{},{}')),
 (P, L2, L2.replace('self.y', 'self.y.abs()')),
 (P, E_, E_.replace('self.head, self.shift, self.tail', 'self.tail, self.shift, self.head')),
 (P, E_, E_.replace('"{} --{}-> {}", self.head, self.shift, self.tail', '"{} --{}-> {}", self.head.min(self.tail), self.shift, self.head.max(self.tail)')),
 (P, GR, GR.replace('&self.edges', 'self.edges.iter().take(4)')),
 (P, GR, GR.replace('&self.edges', 'self.edges.iter().rev()')),
 (P, GR, GR.replace('write!(f, "\\n")?;', 'let _ = write!(f, "\\n");')),
 (P, GR, GR.replace('write!(f, "{}", e)?;', 'let _ = write!(f, "{}", e);')),
 (P, GR, GR.replace('write!(f, "\\n")?;', 'if write!(f, "\\n").is_err() { break; }')),
 (M, MX, MX.replace('self[(i, j)]', 'self[(j % nrows, i % ncols)]')),
 (M, MX, MX.replace('" {}"', '"{} "')),
 (M, MX, MX.replace('write!(f, "\\n")?;', 'if i + 1 < nrows { write!(f, "\\n")?; }')),
 (M, MX, MX.replace('0..ncols', '0..ncols.min(3)')),
 (M, MX, MX.replace('write!(f, " {}", self[(i, j)])?;', 'write!(f, " {}", self[(i, j)]).ok();')),
 (G, AF, AF.replace('t[i]', 't[n - 1 - i]')),
 (G, AF, AF.replace('m[(i, j)]', 'm[(j, i)]')),
 (G, AF, AF.replace('"    {}\\n"', '"   {}\\n"')),
 (G, AF, AF.replace('write!(f, "    {}\\n", t[i])?;', 'write!(f, "    {}\\n", t[i]).unwrap();')),
 (G, 'write!(f, "{}", self.forward)', 'write!(f, "{}", self.backward)'),
 (T, '        writeln!(f, "Setting Name: {}", self.name)?;\n        writeln!(f, "Group name: {}", self.canonical_name)?;', '        writeln!(f, "Setting Name: {}", self.canonical_name)?;\n        writeln!(f, "Group name: {}", self.name)?;'),
 (T, '''        for op in &self.operators {
            write_op(f, &op)?;''', '''        for op in &self.operators {
            write_op(f, &op).ok();'''),
 (T, 'write_op(f, &self.transform.forward())?;', 'write_op(f, &self.transform.forward().inverse().ok_or(std::fmt::Error)?)?;'),
]
GOOD = [
 (P, L3, 'write!(f, "({}, {}, {})", self.x, self.y, self.z)'),
 (P, L3, 'f.write_str("(")?;\n        write!(f, "{}, {}", self.x, self.y)?;\n        write!(f, ", {})", self.z)'),
 (P, L2, 'let (x, y) = (self.x, self.y);\n        write!(f, "({x}, {y})")'),
 (P, E_, 'write!(f, "{} --", self.head)?;\n        self.shift.fmt(f)?;\n        write!(f, "-> {}", self.tail)'),
 (P, GR, GR.replace('write!(f, "{}", e)?;\n            write!(f, "\\n")?;', 'writeln!(f, "{}", e)?;')),
 (P, GR, '''        self.edges.iter().try_for_each(|e| writeln!(f, "{}", e))
'''),
 (P, GR, GR.replace('for e in &self.edges {', 'for k in 0..self.edges.len() {\n            let e = &self.edges[k];')),
 (M, MX, MX.replace('write!(f, "\\n")?;', 'writeln!(f)?;')),
 (M, MX, MX.replace('write!(f, "\\n")?;', 'f.write_str("\\n")?;').replace('self[(i, j)]', 'self.data[i * ncols + j]')),
 (M, MX, MX.replace('write!(f, "\\n")?;', "std::fmt::Write::write_char(f, '\\n')?;")),
 (G, AF, AF.replace('write!(f, "    {}\\n", t[i])?;', 'writeln!(f, "    {}", self.shift[i])?;')),
 (G, 'write!(f, "{}", self.forward)', 'self.forward.fmt(f)'),
 (G, 'write!(f, "{}", self.forward)', 'let fwd = &self.forward;\n        write!(f, "{}", fwd)?;\n        Ok(())'),
 (T, '        writeln!(f, "Setting Name: {}", self.name)?;\n        writeln!(f, "Group name: {}", self.canonical_name)?;', '        writeln!(f, "Setting Name: {}\\nGroup name: {}", self.name, self.canonical_name)?;'),
]
