G = 'src/arithmetic/geometry.rs'
P = 'src/pgraphs.rs'
BAD = [
 (G, '''impl<T,  CS> AddAssign<&Vector<T,  CS>> for Vector<T,  CS>
    where T: for <'a> AddAssign<&'a T>
{
    fn add_assign(&mut self, rhs: &Vector<T,  CS>) {''', '''impl<T,  CS, CS2> AddAssign<&Vector<T,  CS2>> for Vector<T,  CS>
    where T: for <'a> AddAssign<&'a T>
{
    fn add_assign(&mut self, rhs: &Vector<T,  CS2>) {'''),
 (G, '    fn adjust<CSIn>(', '    pub fn adjust<CSIn>('),
 (G, '    pub fn apply(&self, u: &Vector<T, CS>, v: &Vector<T, CS>)', '    pub fn apply<CS2>(&self, u: &Vector<T, CS>, v: &Vector<T, CS2>)'),
 (G, '''impl<T, CSIn, CSOut> Mul<&Point<T, CSIn>> for &CoordinateMap<T, CSIn, CSOut>
    where
        T: Clone,
        for <'a> &'a AffineMap<T, CSIn>:
            Mul<&'a Point<T, CSIn>, Output=Point<T, CSIn>>
{
    type Output = Point<T, CSOut>;
''', '''impl<T, CSIn, CSOut> Mul<&Point<T, CSIn>> for &CoordinateMap<T, CSIn, CSOut>
    where
        T: Clone,
        for <'a> &'a AffineMap<T, CSIn>:
            Mul<&'a Point<T, CSIn>, Output=Point<T, CSIn>>
{
    type Output = Point<T, CSIn>;
'''),
 (G, '    pub(crate) coords: Matrix<T>', '    pub coords: Matrix<T>') if False else (G, 'pub fn apply(&self, u: &Vector<T, CS>, v: &Vector<T, CS>) -> T {', 'pub fn apply<X: Clone>(&self, u: &Vector<T, X>, v: &Vector<T, X>) -> T {'),
]
GOOD = [
 (G, '    fn adjust<CSIn>(', '    pub(crate) fn adjust<CSIn>('),
 (G, '    fn adjust<CSIn>(src: AffineMap<T, CSIn>)', '    fn adjust<Other>(src: AffineMap<T, Other>)'),
]
