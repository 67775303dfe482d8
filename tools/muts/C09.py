F = 'src/symmetries.rs'
A = '    assert!(graph.is_locally_stable(), "graph must be locally stable");\n'
BAD = [
 (F, '    // TODO tag edge list equivalence classes that make no automorphism\n' + A, '    // TODO tag edge list equivalence classes that make no automorphism\n'),
 (F, '    // TODO tag edge list equivalence classes that make no automorphism\n' + A, '    debug_assert!(graph.is_locally_stable(), "graph must be locally stable");\n'),
 (F, A + '    translational_equivalences(&graph).classes(&graph.vertices())', '    translational_equivalences(&graph).classes(&graph.vertices())'),
 (F, A + '\n    if graph.is_stable() {', '    if graph.is_stable() {'),
 (F, A + '\n    let orbit = &raw', '    let orbit = &raw'),
 (F, A + '\n    let orbit = &raw', '    if !graph.is_locally_stable() { return vec![]; }\n    let orbit = &raw'),
 (F, A + '\n    let orbit = &raw', '    assert!(graph.is_connected(), "graph must be connected");\n    let orbit = &raw'),
 (F, A + '\n    let orbits = translational_orbits(graph);', '    let orbits = translational_equivalences(&graph).classes(&graph.vertices());'),
]
GOOD = [
 (F, A + '\n    let orbits = translational_orbits(graph);', '    let orbits = translational_orbits(graph);'),
 (F, A + '    translational_orbits(&graph)[0].len() == 1', '    translational_orbits(&graph)[0].len() == 1'),
 (F, A + '\n    if graph.is_stable() {\n        false\n    } else {', '    if graph.is_stable() {\n        false\n    } else {\n    ' + A),
 [(F, A + '\n    let orbit = &raw', '    demand_local_stability(graph);\n    let orbit = &raw'), (F, 'pub fn ladder_symmetries', '''fn demand_local_stability<T, CS>(graph: &Graph<T, CS>)
    where T: LabelVector<CS>, CS: Clone + Eq + Hash + Ord
{
    if !graph.is_locally_stable() {
        panic!("graph must be locally stable");
    }
}


pub fn ladder_symmetries''')],
]
