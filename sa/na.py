"""Properties this family cannot decide here."""
NA = [
    dict(id='N02', title='Lattice reduction and shifting always terminate',
         statement='Reducing a lattice basis and moving a point into the Dirichlet domain end after finitely many rounds for every positive definite form.',
         quantifier={'over': ['inputs'], 'text': 'all rational two- and three-dimensional bases and positive definite forms'},
         why_tests_cant='Each test reduces one basis; the number of rounds depends on the form without bound.',
         anchors={'files': ['src/spacegroups/lattices.rs'], 'mechanism': 'Selling and Lagrange reduction loops, shift loop'},
         reason='termination needs that a positive definite form takes finitely many values below a bound on a lattice, a quantity fixed only at run time; that each round makes progress is decided separately'),
    dict(id='N03', title='The space group of a planar set of operators is identified',
         statement='For every planar group given by its operators in any setting, the group of the catalogue is named together with the change of coordinates to its standard setting.',
         quantifier={'over': ['inputs'], 'text': 'all operator sets of the 17 planar groups in every setting'},
         why_tests_cant='Settings are unbounded; tests contain no identification at all.',
         anchors={'files': ['src/spacegroups/finder.rs'], 'mechanism': 'identitify_spacegroup_2d'},
         reason='the function that should identify the group is unfinished and panics on every input (todo!()), so there is no identification in the source to decide; the finished parts below it (operators, bases, conventional cells) are C36'),
    dict(id='N04', title='The minimal image of a net has no translational symmetry left',
         statement='For every connected locally stable net the image computed has itself no further translational symmetries, and nets with isomorphic infinite graphs have isomorphic minimal images.',
         quantifier={'over': ['inputs'], 'text': 'all connected locally stable periodic graphs'},
         why_tests_cant='Only a few nets are tested; orbits and bases differ for each.',
         anchors={'files': ['src/symmetries.rs'], 'mechanism': 'minimal_image applied to its own result'},
         reason='that the quotient by all symmetries found has none left is a theorem about infinite nets and the completeness of the search on run-time data; the construction of the quotient itself is decided by C24 and the search by C21'),
]
