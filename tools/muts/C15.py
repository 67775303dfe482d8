D = 'src/data/sgtable.data'
BAD = [
 (D, "Pnma x,y,z\n    x,y,z\n    -x+1/2,-y,z+1/2", "Pnma x,y,z\n    x,y,z\n    -x+1/2,-y+1/2,z+1/2"),
 (D, "P41 x,y,z\n    x,y,z\n    -y,x,z+1/4\n    -x,-y,z+1/2\n    y,-x,z+3/4", "P41 x,y,z\n    x,y,z\n    -y,x,z+3/4\n    -x,-y,z+1/2\n    y,-x,z+1/4"),
 (D, "    -x,y+1/2,-z\n    -x,-y,-z\n    x-1/2,y,-z-1/2\n", "    -x,y+1/2,-z\n    -x,-y,-z\n"),
 (D, "Pmnb -y,x,z\n", "Pmnb y,-x,z+1/4\n"),
 (D, "alias P2/c P12/c1", "alias P2/c P12/n1"),
 (D, "alias Pn3 Pn-3", "alias Pn3 Pn3"),
 (D, "lookup Pnma orthorhombic P", "lookup Pnma orthorhombic I"),
 (D, "lookup C12/c1 monoclinic A -z+1/4,x,-y", "lookup C12/c1 monoclinic A x,-z+1/4,-y"),
 (D, "lookup P-3 trigonal", "lookup P-3 hexagonal"),
 (D, "lookup P65 hexagonal P x,y,z\n", ""),
 (D, "lookup P65 hexagonal P x,y,z\n", "lookup P64 hexagonal P x,y,z\n"),
 (D, "p31m x,y\n    x,y\n    -y,x-y\n    -x+y,-x\n    y,x\n    x-y,-y\n    -x,-x+y", "p31m x,y\n    x,y\n    -y,x-y\n    -x+y,-x\n    -y,-x\n    -x+y,y\n    x,x-y"),
 (D, "Pmnb -y,x,z\n    x,y,z\n", "Pmnb -y,x,z\n    x,y,z\n    x,y,z\n"),
]
GOOD = [
 (D, "P41 x,y,z\n    x,y,z\n    -y,x,z+1/4\n    -x,-y,z+1/2\n    y,-x,z+3/4", "# reordered\nP41 x,y,z\n    x,y,z\n    y,-x,z-1/4\n    -y,x,z+1/4\n    -x,-y,z+1/2"),
 (D, "alias P2/c P12/c1", "ALIAS P2/c   P12/c1"),
 (D, "p31m x,y\n    x,y\n    -y,x-y\n", "p31m x,y\n    x,y\n    -y, -y+x\n"),
]
