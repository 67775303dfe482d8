F = 'src/spacegroups/lattices.rs'
TY = 'src/spacegroups/types.rs'
BAD = [
    (F, "while norm(&u) < &norm(&v) * &fudge {", "while &norm(&u) + &norm(&u) < norm(&v) {"),
    (F, "    if dot(&u, &v).is_positive() {\n        v = neg(&v);\n    }", "    if dot(&u, &v).is_negative() {\n        v = neg(&v);\n    }"),
    (F, "            let w = add(&u, &v);\n            vec![u, v, w]", "            let w = sub(&u, &v);\n            vec![u, v, w]"),
    (F, "        (u, v) = (w, u);\n    }\n\n    if dot", "        (u, v) = (u, w);\n    }\n\n    if dot"),
    (F, "        let t = dot(&u, &v).div_rounded(&norm(&u));", "        let t = dot(&u, &v).div_rounded(&norm(&v));"),
    (TY, "        BigRational::round(&(self / other))", "        BigRational::floor(&(self / other))"),
    (TY, "        BigRational::round(self)", "        BigRational::trunc(self)"),
    # Selling
    (F, "    let s = neg(&add(&add(&u, &v), &w));", "    let s = add(&add(&u, &v), &w);"),
    (F, "            for j in (i + 1)..4 {", "            for j in (i + 1)..3 {"),
    (F, "        for i in 0..3 {\n            for j", "        for i in 0..2 {\n            for j"),
    (F, "                            vs[k] = add(&vs[k], &vs[i]);", "                            vs[k] = add(&vs[k], &vs[j]);"),
    (F, "                    vs[i] = neg(&vs[i]);\n", ""),
    (F, "                        if k != i && k != j {", "                        if k != i {"),
    (F, "                    changed = true;", "                    changed = i == 0;"),
    (F, "            let uvw = add(&uv, &w);", "            let uvw = add(&uv, &v);"),
    (F, "vec![u, v, w, uv, uw, vw, uvw]", "vec![u, v, w, uv, uw, uvw]"),
    # reduced basis
    (F, "match dot(v, v).partial_cmp(&dot(w, w)).unwrap() {", "match dot(w, w).partial_cmp(&dot(v, v)).unwrap() {"),
    (F, "positive_direction(w).partial_cmp(&positive_direction(v))", "positive_direction(w).partial_cmp(v)"),
    (F, "if a.len() > 0 && dot(&a[0], &w).is_positive() {", "if a.len() > 0 && dot(&a[0], &w).is_negative() {"),
    (F, "if a.len() > 0 && dot(&a[0], &w).is_positive() {", "if a.len() > 1 && dot(&a[0], &w).is_positive() {"),
    (F, "        if rank(&a) < a.len() {\n            a.pop();\n        } else if", "        if"),
    (F, "        } else if a.len() >= dim {", "        } else if a.len() > dim {"),
    (F, "        } else if a.len() >= dim {", "        } else if a.len() >= 2 {"),
    # shift
    (F, "if t2 < -T::one() || t2 > T::one() + epsilon {", "if t2 > T::one() + epsilon {"),
    (F, "let t2 = &t + &t;", "let t2 = t.clone();"),
    (F, "                shift = sub(&shift, &mul(v, &t.round()));", "                shift = sub(&shift, &mul(v, &t));"),
    (F, "                shift = sub(&shift, &mul(v, &t.round()));", "                shift = add(&shift, &mul(v, &t.round()));"),
    (F, "                proceed = true;\n", "                proceed = t.is_positive();\n"),
    (F, "            let t = dot(&add(&pos, &shift), v) / dot(v, v);", "            let t = dot(&pos, v) / dot(v, v);"),
    # rational lattices
    (F, "            common_denom *= x.denom() / common_denom.gcd(x.denom());", "            common_denom = x.denom() / common_denom.gcd(x.denom());"),
    (F, "        b[k] = common_denom;", "        b[k] = 1;"),
    (F, "    for k in 0..dim {\n        let mut b = vec![0; dim];", "    for k in 1..dim {\n        let mut b = vec![0; dim];"),
    (F, ".map(|x| BigRational::from(BigInt::from(*x)) / &f)", ".map(|x| BigRational::from(BigInt::from(*x)) * &f)"),
]
GOOD = [
    (F, "while norm(&u) < &norm(&v) * &fudge {", "while dot(&u, &v).is_positive() && dot(&u, &v) + dot(&u, &v) > norm(&u) || dot(&u, &v).is_negative() && -(dot(&u, &v) + dot(&u, &v)) > norm(&u) {"),
    (F, "    while norm(&u) < &norm(&v) * &fudge {\n        let t", "    loop {\n        if !(norm(&u) < &norm(&v) * &fudge) { break; }\n        let t"),
    (F, "        let w = sub(&v, &mul(&u, &t));\n        (u, v) = (w, u);", "        let w = sub(&v, &mul(&u, &t));\n        v = u;\n        u = w;"),
    (F, "    if norm(&v) < norm(&u) {\n        (u, v) = (v, u);\n    }\n\n", "    let swap = norm(&v) < norm(&u);\n    if swap {\n        std::mem::swap(&mut u, &mut v);\n    }\n\n"),
    (F, "    if dot(&u, &v).is_positive() {\n        v = neg(&v);\n    }", "    if dot(&u, &v).is_positive() {\n        u = neg(&u);\n    }"),
    (F, "            vec![u, v, w, uv, uw, vw, uvw]", "            vec![uvw, u, v, w, uv, vw, uw]"),
    (F, """                    for k in 0..4 {
                        if k != i && k != j {
                            vs[k] = add(&vs[k], &vs[i]);
                        }
                    }
""", """                    let d = vs[i].clone();
                    for k in 0..4 {
                        if k == i || k == j {
                            continue;
                        }
                        vs[k] = add(&d, &vs[k]);
                    }
"""),
    (F, "        if !changed {\n            break;\n        }\n    }\n\n    (vs[0]", "        if changed {\n            continue;\n        }\n        break;\n    }\n\n    (vs[0]"),
    (F, "    (vs[0].clone(), vs[1].clone(), vs[2].clone())", "    (vs[3].clone(), vs[1].clone(), vs[2].clone())"),
    (F, """        a.push(if a.len() > 0 && dot(&a[0], &w).is_positive() {
            neg(&w)
        } else {
            w.clone()
        });
""", """        let flip = !a.is_empty() && dot(&a[0], &w).is_positive();
        a.push(if flip { neg(&w) } else { w });
"""),
    (F, """        if rank(&a) < a.len() {
            a.pop();
        } else if a.len() >= dim {
            return Some(a);
        }
""", """        if rank(&a) == a.len() {
            if a.len() >= dim {
                return Some(a);
            }
        } else {
            a.pop();
        }
"""),
    (F, "            let t2 = &t + &t;\n            if t2 < -T::one() || t2 > T::one() + epsilon {", "            let t2 = &t + &t;\n            let outside = t2 < -T::one() || t2 > T::one() + epsilon;\n            if outside {"),
    (F, "            common_denom *= x.denom() / common_denom.gcd(x.denom());", "            common_denom = common_denom.lcm(x.denom());"),
    (F, """fn mul<T>(v: &[T], t: &T) -> Vec<T>
    where T: Coord, for <'a> &'a T: CoordPtr<T>
{
    (0..v.len()).map(|i| &v[i] * t).collect()
}
""", """fn mul<T>(v: &[T], t: &T) -> Vec<T>
    where T: Coord, for <'a> &'a T: CoordPtr<T>
{
    let mut out = vec![];
    for x in v {
        out.push(x * t);
    }
    out
}
"""),
    (F, """    let mut basis = vec![];
    for v in vs {
        extend_basis(&v, &mut basis);
    }
    basis.len()
}
""", """    let mut basis = vec![];
    for k in 0..vs.len() {
        extend_basis(&vs[k], &mut basis);
    }
    basis.len()
}
"""),
    (F, "    let mut proceed = true;\n\n    while proceed {\n        proceed = false;\n", "    loop {\n        let mut proceed = false;\n"),
]
GOOD[-1] = [GOOD[-1], (F, "                proceed = true;\n            }\n        }\n    }\n", "                proceed = true;\n            }\n        }\n        if !proceed { break; }\n    }\n")]
