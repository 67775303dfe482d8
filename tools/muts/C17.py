F = 'src/pgraphs.rs'
BAD = [
    (F, 'self.x == 0 && self.y == 0 && self.z < 0', 'self.x == 0 && self.z < 0'),
    (F, 'self.x > 0 ||\n        self.x == 0 && self.y > 0\n', 'self.x > 0 ||\n        self.y > 0\n'),
    (F, 'z: self.z - rhs.z', 'z: self.z + rhs.z'),
    (F, 'Self::new(v[0], v[1], v[2])', 'Self::new(v[0], v[2], v[1])'),
    (F, 'x: -self.x, y: -self.y, phantom', 'x: -self.x, y: self.y, phantom'),
    (F, '    x: i32,\n    y: i32,\n    z: i32,\n', '    z: i32,\n    y: i32,\n    x: i32,\n'),
]
GOOD = [
    (F, 'self.x < 0 ||\n        self.x == 0 && self.y < 0\n', 'if self.x != 0 { self.x < 0 } else { self.y <= -1 }\n'),
    (F, 'self.x > 0 ||\n        self.x == 0 && self.y > 0 ||\n        self.x == 0 && self.y == 0 && self.z > 0', '!self.is_zero() && !self.is_negative()'),
    (F, 'self.x > 0 ||\n        self.x == 0 && self.y > 0 ||\n        self.x == 0 && self.y == 0 && self.z > 0', '(self.x, self.y, self.z) > (0, 0, 0)'),
    (F, 'Self { x: self.x - rhs.x, y: self.y - rhs.y, phantom: self.phantom }', 'self + (-rhs)'),
    (F, 'vec![self.x, self.y, self.z]', '[self.x, self.y, self.z].to_vec()'),
    (F, '''        self.x > 0 ||
        self.x == 0 && self.y > 0 ||
        self.x == 0 && self.y == 0 && self.z > 0''', '''        match self.x.cmp(&0) {
            std::cmp::Ordering::Greater => true,
            std::cmp::Ordering::Less => false,
            std::cmp::Ordering::Equal => self.y > 0 || self.y == 0 && self.z > 0,
        }'''),
    (F, '''        self.x > 0 ||
        self.x == 0 && self.y > 0 ||
        self.x == 0 && self.y == 0 && self.z > 0''', '''        for c in [self.x, self.y, self.z] {
            if c != 0 { return c > 0; }
        }
        false'''),
]
