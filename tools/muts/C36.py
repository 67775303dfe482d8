F = 'src/spacegroups/finder.rs'
BAD = [
 (F, 'let order = matrix_order(&matrix, 6);', 'let order = matrix_order(&matrix, 4);'),
 (F, 'for i in 1..=max {', 'for i in 2..=max {'),
 (F, 'for i in 1..=max {', 'for i in 1..max {'),
 (F, '''        if a == identity {
            return i;
        }
    }
    
    0''', '''        if a == identity {
            return i;
        }
    }
    
    max'''),
 (F, 'let is_orientation_preserving = !is_left_handed(&matrix);', 'let is_orientation_preserving = dimension == 2 || !is_left_handed(&matrix);'),
 (F, '!(matrix[(0, 1)]).is_negative()', '!(matrix[(1, 0)]).is_negative()'),
 (F, '!(matrix[(0, 1)]).is_negative()', '!(matrix[(0, 0)]).is_negative()'),
 (F, 'let v = if are_collinear(&axis, &u0) { u1 } else { u0 };', 'let v = u0;'),
 (F, 'let v = if are_collinear(&axis, &u0) { u1 } else { u0 };', 'let v = if are_collinear(&axis, &u1) { u1 } else { u0 };'),
 (F, 'let a = Matrix::hstack(&[Matrix::col(&axis), v, w]);', 'let a = Matrix::hstack(&[v, Matrix::col(&axis), w]);'),
 (F, 'let r = if dim % 2 != 0 && is_left_handed(matrix) {', 'let r = if is_left_handed(matrix) {'),
 (F, 'let r = if dim % 2 != 0 && is_left_handed(matrix) {', 'let r = if dim == 1 && is_left_handed(matrix) {'),
 (F, 'if z.ncols == 1 {', 'if z.ncols >= 1 {'),
 (F, 'return Some(positive_direction(&z.get_col(0)));', 'return Some(z.get_col(0));'),
 (F, 'if x.is_negative() {\n            return v.iter()', 'if v[0].is_negative() {\n            return v.iter()'),
 (F, 'v.iter().find(|x| !x.is_zero())', 'v.iter().rfind(|x| !x.is_zero())'),
 (F, 'dot(v, w) * dot(v, w) == dot(v, v) * dot(w, w)', 'dot(v, w) == dot(v, v)'),
 (F, '3 | 6 => CrystalSystem::Hexagonal', '6 => CrystalSystem::Hexagonal'),
 (F, 'let m = if n == 6 { 3 } else { n };', 'let m = if n == 6 { 2 } else { n };'),
 (F, '.filter(|opd| !opd.is_orientation_preserving)', '.filter(|opd| opd.order == 2)'),
 (F, '_ => if mirrors.len() > 0 {\n            CrystalSystem::Rect', '_ => if mirrors.len() > 1 {\n            CrystalSystem::Rect'),
 (F, '&t - &mirrors[0].matrix * &t', '&t + &mirrors[0].matrix * &t'),
 (F, '''        if mirrors.len() > 0 {
            &t - &mirrors[0].matrix * &t
        } else {
            t
        }''', '''        t'''),
 (F, 'if is_left_handed(&b) { vec![x, -y] } else', 'if is_left_handed(&b) { vec![-x, -y] } else'),
 (F, 'mirrors.iter().find(|s| s.axis != mirrors[0].axis)', 'mirrors.get(1)'),
 (F, 'if !b[0][0].is_zero() && !b[0][1].is_zero() {', 'if !b[0][0].is_zero() || !b[0][1].is_zero() {'),
 (F, '''                        apply_operator("0, 2y", &b[1]),
                        apply_operator("2x, 0", &b[1]),''', '''                        apply_operator("0, 2y", &b[1]),
                        apply_operator("2x, 0", &b[0]),'''),
 (F, 'apply_operator("-y, x-y", &b[0])', 'apply_operator("-y, x", &b[0])'),
 (F, 'x = x + &Coord::promote(r[i]) * &b[i];', 'x = x + &Coord::promote(r[i]) * &b[k];'),
 (F, 'let mut cell = identity.get_rows();', 'let mut cell = vec![];'),
]
GOOD = [
 (F, 'let is_orientation_preserving = !is_left_handed(&matrix);', 'let is_orientation_preserving = !matrix.determinant().is_negative();'),
 (F, '''    for i in 1..=max {
        a = &a * matrix;
        if a == identity {
            return i;
        }
    }
    
    0''', '''    let mut i = 1;
    while i <= max {
        a = matrix * &a;
        if a == identity {
            return i;
        }
        i += 1;
    }
    
    0'''),
 (F, '''    if let Some(x) = v.iter().find(|x| !x.is_zero()) {
        if x.is_negative() {
            return v.iter().map(|x| -x).collect();
        }
    }
    v.to_vec()''', '''    for x in v {
        if x.is_zero() {
            continue;
        }
        return if x.is_negative() { v.iter().map(|x| -x).collect() } else { v.to_vec() };
    }
    v.to_vec()'''),
 (F, '''    let mut s = T::zero();
    for i in 0..v.len() {
        s = s + &v[i] * &w[i];
    }

    s''', '''    v.iter().zip(w.iter()).fold(T::zero(), |s, (x, y)| s + x * y)'''),
 (F, '''    let x = if mirrors.len() > 0 {
        Matrix::col(&mirrors[0].axis.clone().unwrap())
    } else {
        Matrix::col(&[T::one(), T::zero()])
    };''', '''    let x = match mirrors.first() {
        Some(s) => Matrix::col(&s.axis.clone().unwrap()),
        None => Matrix::col(&[T::one(), T::zero()])
    };'''),
 (F, '''        let s = ops_with_details.iter().find(|s|
            s.is_orientation_preserving && s.is_clockwise && s.order == m
        ).unwrap();
        &s.matrix * &x''', '''        let mut turns = ops_with_details.iter().filter(|s|
            s.order == m && s.is_orientation_preserving && s.is_clockwise
        );
        &turns.next().unwrap().matrix * &x'''),
 (F, 'let v = if are_collinear(&axis, &u0) { u1 } else { u0 };', 'let v = if axis[1].is_zero() && axis[2].is_zero() { u1 } else { u0 };'),
 (F, '''            s.is_orientation_preserving && s.is_clockwise && s.order == m''', '''            s.is_orientation_preserving && !s.is_clockwise && s.order == m'''),
 (F, '''    let r = if dim % 2 != 0 && is_left_handed(matrix) {
        matrix + Matrix::identity(dim)
    } else {
        matrix - Matrix::identity(dim)
    };
''', '''    let flips = dim % 2 != 0 && is_left_handed(matrix);
    let r = if flips {
        matrix + Matrix::identity(dim)
    } else {
        matrix - Matrix::identity(dim)
    };
'''),
 (F, '''        let has_shift = op.shift().iter().any(|x| !x.is_zero());
        if has_shift && op.linear_matrix() == identity {
            let s''', '''        let has_shift = op.shift().iter().any(|x| !x.is_zero());
        if op.linear_matrix() != identity || !has_shift {
            continue;
        }
        {
            let s'''),
 (F, 'let m = if n == 6 { 3 } else { n };', 'let m = n;'),
 (F, 'if is_left_handed(&b) { vec![x, -y] } else', 'if is_left_handed(&b) { vec![y, x] } else'),
 (F, 'apply_operator("-y, x", &b[0])', 'apply_operator("x, y", &b[1])'),
]
