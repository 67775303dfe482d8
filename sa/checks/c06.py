"""C06: coordinate systems are kept apart by the types."""
from ..rules import *
from .. import mir

LEVEL = 'other'
TECHNIQUE = 'type-level witnesses: a client crate of must-fail / must-compile twins type-checked (never run) against the current tree'
RULE = ('Each obligation is a pair of one-line functions that differ only in a coordinate system tag.  The compiler must accept the one whose systems fit and refuse, with a type or visibility error, '
        'the one that mixes systems; a mixing function that type-checks is the violation.  When the fitting twin is refused, the obligation is undecided.')
PROP = {
    'title': 'Values of different coordinate systems cannot be combined',
    'statement': 'Vectors, points, scalar products, maps, edges and shifts carry their coordinate system in their type. No operation accepts operands of different systems, a coordinate map takes values of its source system '
                 'to values of its target system and only those, and nothing but a coordinate map or fresh coordinates changes the system of a value.',
    'quantifier': {'over': ['programs'], 'text': 'all client programs'},
    'why_tests_cant': 'A program that mixes coordinate systems does not compile, so ordinary tests cannot contain one and still pass when the types get looser; the few compile-fail examples cover a handful of operations.',
    'anchors': {'files': ['src/arithmetic/geometry.rs', 'src/pgraphs.rs'], 'mechanism': 'coordinate system type parameters of the geometric types, their operator implementations and the coordinate map'},
}

HEAD = '''#![allow(unused)]
use rust_systre::arithmetic::geometry::*;
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::pgraphs as pg;
use rust_systre::symmetries as sy;
use num_rational::BigRational;
pub type Q = f64;
use std::ops::Mul;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct A;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct B;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct C;
pub type V<S> = Vector<Q, S>;
pub type P<S> = Point<Q, S>;
pub type S<X> = ScalarProduct<Q, X>;
pub type M<S> = AffineMap<Q, S>;
pub type T<X, Y> = CoordinateMap<Q, X, Y>;
pub type VQ<S> = Vector<BigRational, S>;
pub type MQ<S> = AffineMap<BigRational, S>;
pub type PQ<S> = Point<BigRational, S>;
pub type L2<S> = pg::LabelVector2d<S>;
pub type L3<S> = pg::LabelVector3d<S>;
pub type E2<S> = pg::Edge<L2<S>, S>;
pub type G2<S> = pg::Graph<L2<S>, S>;
pub type Au<S> = pg::Automorphism<L2<S>, S>;
'''

# name, fitting parameters and body, mixing parameters and body
PAIRS = [
    ('adding vectors', 'a: V<A>, b: V<A>', 'let _ = a + b;', 'a: V<A>, b: V<B>', None),
    ('adding vectors by reference', 'a: &V<A>, b: &V<A>', 'let _ = a + b;', 'a: &V<A>, b: &V<B>', None),
    ('adding to a vector', 'a: &mut V<A>, b: V<A>', '*a += b;', 'a: &mut V<A>, b: V<B>', None),
    ('adding to a vector by reference', 'a: &mut V<A>, b: &V<A>', '*a += b;', 'a: &mut V<A>, b: &V<B>', None),
    ('subtracting vectors', 'a: V<A>, b: V<A>', 'let _ = a - b;', 'a: V<A>, b: V<B>', None),
    ('subtracting vectors by reference', 'a: &V<A>, b: &V<A>', 'let _ = a - b;', 'a: &V<A>, b: &V<B>', None),
    ('subtracting from a vector', 'a: &mut V<A>, b: V<A>', '*a -= b;', 'a: &mut V<A>, b: V<B>', None),
    ('the sum of vectors', 'a: V<A>, b: V<A>', 'let _: V<A> = a + b;', 'a: V<A>, b: V<A>', 'let _: V<B> = a + b;'),
    ('the difference of vectors', 'a: V<A>, b: V<A>', 'let _: V<A> = a - b;', 'a: V<A>, b: V<A>', 'let _: V<B> = a - b;'),
    ('the negative of a vector', 'a: V<A>', 'let _: V<A> = -a;', 'a: V<A>', 'let _: V<B> = -a;'),
    ('scaling a vector', 'a: V<A>, k: Q', 'let _: V<A> = a * k;', 'a: V<A>, k: Q', 'let _: V<B> = a * k;'),
    ('comparing vectors', 'a: V<A>, b: V<A>', 'let _ = a == b;', 'a: V<A>, b: V<B>', None),
    ('reducing a vector', 'a: VQ<A>', 'let _: VQ<A> = a.mod_z();', 'a: VQ<A>', 'let _: VQ<B> = a.mod_z();'),
    ('comparing points', 'a: P<A>, b: P<A>', 'let _ = a == b;', 'a: P<A>, b: P<B>', None),
    ('moving a point', 'a: P<A>, b: V<A>', 'let _ = a + b;', 'a: P<A>, b: V<B>', None),
    ('moving a point by reference', 'a: &P<A>, b: &V<A>', 'let _ = a + b;', 'a: &P<A>, b: &V<B>', None),
    ('moving a point in place', 'a: &mut P<A>, b: V<A>', '*a += b;', 'a: &mut P<A>, b: V<B>', None),
    ('moving a point back', 'a: P<A>, b: V<A>', 'let _: P<A> = a - b;', 'a: P<A>, b: V<B>', 'let _: P<A> = a - b;'),
    ('moving a point back in place', 'a: &mut P<A>, b: &V<A>', '*a -= b;', 'a: &mut P<A>, b: &V<B>', None),
    ('the difference of points', 'a: P<A>, b: P<A>', 'let _: V<A> = a - b;', 'a: P<A>, b: P<B>', 'let _: V<A> = a - b;'),
    ('the difference of points by reference', 'a: &P<A>, b: &P<A>', 'let _: V<A> = a - b;', 'a: &P<A>, b: &P<B>', 'let _: V<A> = a - b;'),
    ('the system of a difference of points', 'a: P<A>, b: P<A>', 'let _: V<A> = a - b;', 'a: P<A>, b: P<A>', 'let _: V<B> = a - b;'),
    ('points are not added', 'a: P<A>, b: V<A>', 'let _: P<A> = a + b;', 'a: P<A>, b: P<A>', 'let _: P<A> = a + b;'),
    ('a vector is not a point', 'a: V<A>', 'let _: V<A> = a.into();', 'a: V<A>', 'let _: P<A> = a.into();'),
    ('a point is not a vector', 'a: P<A>', 'let _: P<A> = a.into();', 'a: P<A>', 'let _: V<A> = a.into();'),
    ('a vector keeps its system', 'a: V<A>', 'let _: V<A> = a.into();', 'a: V<A>', 'let _: V<B> = a.into();'),
    ('a vector keeps its system by reference', 'a: &V<A>', 'let _: &V<A> = a.into();', 'a: &V<A>', 'let _: V<B> = a.into();'),
    ('a point keeps its system', 'a: P<A>', 'let _: P<A> = a.into();', 'a: P<A>', 'let _: P<B> = a.into();'),
    ('a scalar product keeps its system', 'a: S<A>', 'let _: S<A> = a.into();', 'a: S<A>', 'let _: S<B> = a.into();'),
    ('a map keeps its system', 'a: M<A>', 'let _: M<A> = a.into();', 'a: M<A>', 'let _: M<B> = a.into();'),
    ('a coordinate map keeps its systems', 'a: T<A, B>', 'let _: T<A, B> = a.into();', 'a: T<A, B>', 'let _: T<B, A> = a.into();'),
    ('scalar products of vectors, first', 'd: &S<A>, a: &V<A>, b: &V<A>', 'let _ = d.apply(a, b);', 'd: &S<A>, a: &V<B>, b: &V<A>', None),
    ('scalar products of vectors, second', 'd: &S<A>, a: &V<A>, b: &V<A>', 'let _ = d.apply(a, b);', 'd: &S<A>, a: &V<A>, b: &V<B>', None),
    ('scalar products in another system', 'd: &S<A>, a: &V<A>', 'let _ = d.apply(a, a);', 'd: &S<B>, a: &V<A>', None),
    ('making a map', 'm: &Matrix<Q>, a: &V<A>', 'let _: M<A> = AffineMap::new(m, a);', 'm: &Matrix<Q>, a: &V<B>', 'let _: M<A> = AffineMap::new(m, a);'),
    ('the shift of a map', 'a: &M<A>', 'let _: V<A> = a.shift();', 'a: &M<A>', 'let _: V<B> = a.shift();'),
    ('the inverse of a map', 'a: &M<A>', 'let _: Option<M<A>> = a.inverse();', 'a: &M<A>', 'let _: Option<M<B>> = a.inverse();'),
    ('composing maps', 'a: &M<A>, b: &M<A>', 'let _ = a * b;', 'a: &M<A>, b: &M<B>', None),
    ('composing maps by value', 'a: M<A>, b: M<A>', 'let _ = a * b;', 'a: M<A>, b: M<B>', None),
    ('the system of a composition', 'a: &M<A>, b: &M<A>', 'let _: M<A> = a * b;', 'a: &M<A>, b: &M<A>', 'let _: M<B> = a * b;'),
    ('mapping points', 'a: &M<A>, b: &P<A>', 'let _ = a * b;', 'a: &M<A>, b: &P<B>', None),
    ('the image of a point', 'a: &M<A>, b: &P<A>', 'let _: P<A> = a * b;', 'a: &M<A>, b: &P<A>', 'let _: P<B> = a * b;'),
    ('mapping vectors', 'a: &M<A>, b: &V<A>', 'let _ = a * b;', 'a: &M<A>, b: &V<B>', None),
    ('the image of a vector', 'a: &M<A>, b: &V<A>', 'let _: V<A> = a * b;', 'a: &M<A>, b: &V<A>', 'let _: V<B> = a * b;'),
    ('comparing maps', 'a: M<A>, b: M<A>', 'let _ = a == b;', 'a: M<A>, b: M<B>', None),
    ('reducing a map', 'a: MQ<A>', 'let _: MQ<A> = a.mod_z();', 'a: MQ<A>', 'let _: MQ<B> = a.mod_z();'),
    ('a map that names another system is not made by reinterpreting', 'a: M<A>', 'let _: M<A> = AffineMap::new(&a.linear_matrix(), &a.shift());', 'a: M<A>', 'let _: M<B> = AffineMap::adjust(a);'),
    ('the coordinates of a vector are not replaced from outside', 'a: V<A>', 'let _ = a.dim();', 'a: V<A>', 'let _ = a.coords;'),
    ('making a coordinate map', 'a: &M<A>', 'let _: T<A, B> = CoordinateMap::new(a);', 'a: &M<A>', 'let _: T<B, A> = CoordinateMap::new(a);'),
    ('the forward map', 'a: &T<A, B>', 'let _: M<A> = a.forward();', 'a: &T<A, B>', 'let _: M<B> = a.forward();'),
    ('the inverse of a coordinate map', 'a: &T<A, B>', 'let _: T<B, A> = a.inverse();', 'a: &T<A, B>', 'let _: T<A, B> = a.inverse();'),
    ('a coordinate map from a basis', 'a: &[V<B>]', 'let _: T<A, B> = CoordinateMap::from_basis(a);', 'a: &[V<A>]', 'let _: T<A, B> = CoordinateMap::from_basis(a);'),
    ('a coordinate map to a basis', 'a: &[V<A>]', 'let _: T<A, B> = CoordinateMap::to_basis(a);', 'a: &[V<B>]', 'let _: T<A, B> = CoordinateMap::to_basis(a);'),
    ('composing coordinate maps', 'a: &T<B, C>, b: &T<A, B>', 'let _ = a * b;', 'a: &T<B, C>, b: &T<A, C>', None),
    ('composing coordinate maps in the wrong order', 'a: &T<B, C>, b: &T<A, B>', 'let _ = a * b;', 'a: &T<A, B>, b: &T<B, C>', None),
    ('the systems of a composed coordinate map', 'a: &T<B, C>, b: &T<A, B>', 'let _: T<A, C> = a * b;', 'a: &T<B, C>, b: &T<A, B>', 'let _: T<C, A> = a * b;'),
    ('the source of a composed coordinate map', 'a: &T<B, C>, b: &T<A, B>', 'let _: T<A, C> = a * b;', 'a: &T<B, C>, b: &T<A, B>', 'let _: T<B, C> = a * b;'),
    ('changing the coordinates of a point', 'a: &T<A, B>, b: &P<A>', 'let _ = a * b;', 'a: &T<A, B>, b: &P<B>', None),
    ('the system of a changed point', 'a: &T<A, B>, b: &P<A>', 'let _: P<B> = a * b;', 'a: &T<A, B>, b: &P<A>', 'let _: P<A> = a * b;'),
    ('changing the coordinates of a vector', 'a: &T<A, B>, b: &V<A>', 'let _ = a * b;', 'a: &T<A, B>, b: &V<B>', None),
    ('the system of a changed vector', 'a: &T<A, B>, b: &V<A>', 'let _: V<B> = a * b;', 'a: &T<A, B>, b: &V<A>', 'let _: V<A> = a * b;'),
    ('changing the coordinates of a scalar product', 'a: &T<A, B>, b: &S<A>', 'let _ = a * b;', 'a: &T<A, B>, b: &S<B>', None),
    ('the system of a changed scalar product', 'a: &T<A, B>, b: &S<A>', 'let _: S<B> = a * b;', 'a: &T<A, B>, b: &S<A>', 'let _: S<A> = a * b;'),
    ('changing the coordinates of a map', 'a: &T<A, B>, b: &M<A>', 'let _ = a * b;', 'a: &T<A, B>, b: &M<B>', None),
    ('the system of a changed map', 'a: &T<A, B>, b: &M<A>', 'let _: M<B> = a * b;', 'a: &T<A, B>, b: &M<A>', 'let _: M<A> = a * b;'),
    ('changing coordinates by value', 'a: T<A, B>, b: P<A>', 'let _ = a * b;', 'a: T<A, B>, b: P<B>', None),
    ('adding shifts', 'a: L2<A>, b: L2<A>', 'let _ = a + b;', 'a: L2<A>, b: L2<B>', None),
    ('adding shifts of three dimensions', 'a: L3<A>, b: L3<A>', 'let _ = a + b;', 'a: L3<A>, b: L3<B>', None),
    ('subtracting shifts', 'a: L2<A>, b: L2<A>', 'let _ = a - b;', 'a: L2<A>, b: L2<B>', None),
    ('subtracting shifts of three dimensions', 'a: L3<A>, b: L3<A>', 'let _ = a - b;', 'a: L3<A>, b: L3<B>', None),
    ('shifts of different dimension', 'a: L2<A>, b: L2<A>', 'let _ = a + b;', 'a: L2<A>, b: L3<A>', None),
    ('the negative of a shift', 'a: L2<A>', 'let _: L2<A> = -a;', 'a: L2<A>', 'let _: L2<B> = -a;'),
    ('comparing shifts', 'a: L2<A>, b: L2<A>', 'let _ = a < b;', 'a: L2<A>, b: L2<B>', None),
    ('making an edge', 'a: L2<A>', 'let _: E2<A> = pg::Edge::new(1, 2, a);', 'a: L2<B>', 'let _: E2<A> = pg::Edge::new(1, 2, a);'),
    ('reversing an edge', 'a: &E2<A>', 'let _: E2<A> = -a;', 'a: &E2<A>', 'let _: E2<B> = -a;'),
    ('making a graph', 'a: &[E2<A>]', 'let _: G2<A> = pg::Graph::new(a);', 'a: &[E2<B>]', 'let _: G2<A> = pg::Graph::new(a);'),
    ('the edges at a vertex', 'g: &G2<A>', 'let _: Vec<E2<A>> = g.incidences(&1);', 'g: &G2<A>', 'let _: Vec<E2<B>> = g.incidences(&1);'),
    ('the vector of an edge', 'g: &G2<A>, e: &E2<A>', 'let _ = g.edge_vector(e);', 'g: &G2<A>, e: &E2<B>', None),
    ('symmetries of a graph', 'g: &G2<A>', 'let _: Vec<Au<A>> = g.symmetries();', 'g: &G2<A>', 'let _: Vec<Au<B>> = g.symmetries();'),
    ('composing symmetries', 'a: &Au<A>, b: &Au<A>', 'let _ = a * b;', 'a: &Au<A>, b: &Au<B>', None),
    ('positions are not in another system', 'g: &G2<A>', 'let _: pg::Point = g.position(&1);', 'g: &G2<A>', 'let _: PQ<B> = g.position(&1);'),
    ('looking up an edge by its vector', 'g: &G2<A>, v: &pg::Vector', 'let _ = g.edge_by_unique_delta(&1, v);', 'g: &G2<A>, v: &VQ<A>', None),
]

KINDS = {'E0308', 'E0277', 'E0369', 'E0271', 'E0368', 'E0599', 'E0616', 'E0624', 'E0603', 'E0282', 'E0283'}


def program(pairs):
    src = HEAD
    line = src.count('\n')
    at = {}
    for i, (name, gp, gb, bp, bb) in enumerate(pairs):
        src += 'pub fn g%d(%s) { %s }\n' % (i, gp, gb)
        src += 'pub fn b%d(%s) { %s }\n' % (i, bp, bb or gb)
        at[line + 1] = (i, 'good')
        at[line + 2] = (i, 'bad')
        line += 2
    return src, at


def judge(ctx, pairs, file):
    """one type check of all pairs, an obligation for each"""
    src, at = program(pairs)
    try:
        errs = mir.witness(src, ctx.repo)
    except Exception as e:
        def broken(e=e):
            raise Und('the witness crate was not checked: %s' % e)
        ctx.ob('witness crate', broken)
        return
    by = {}
    stray = []
    for line, _, code, msg in errs:
        if line in at:
            by.setdefault(at[line], []).append((code, msg))
        elif line:
            stray.append('line %d: %s' % (line, msg))
    for i, (name, gp, gb, bp, bb) in enumerate(pairs):
        def one(i=i, gp=gp, gb=gb, bp=bp, bb=bb):
            if stray:
                raise Und('the witness does not fit the crate: %s' % stray[0][:100])
            if (i, 'good') in by and (i, 'bad') not in by and any(c in KINDS for c, _ in by[i, 'good']):
                raise Bad('a client may write  fn f(%s) { %s }  but not  fn f(%s) { %s }' % (bp, bb or gb, gp, gb), file)
            if (i, 'good') in by:
                raise Und('the fitting twin is refused: %s' % by[i, 'good'][0][1][:100])
            es = by.get((i, 'bad'))
            if not es:
                raise Bad('a client may write  fn f(%s) { %s }' % (bp, bb or gb), file)
            if not any(c in KINDS for c, _ in es):
                raise Und('refused for another reason: %s' % es[0][1][:100])
            return 'refused: %s %s' % es[0]
        ctx.ob(name, one)
    ctx.counts['functions'] = ctx.counts.get('functions', 0) + 2 * len(pairs)


def run(ctx):
    judge(ctx, PAIRS, 'src/arithmetic/geometry.rs and src/pgraphs.rs (public operations)')
