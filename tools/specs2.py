HOLD = 'meshmagick/hydrostatics_old.py'
prop('C18', 'The command line applies the requested operations, in its documented order',
     'For any input file and combination of options, the mesh written by the command line is the input mesh to which '
     'the options have been applied in the fixed order of the program (concatenation, merging, mirror, symmetrization, '
     'healing, translations, rotations in degrees, scalings, flip, triangulation, clipping), whatever their order on '
     'the command line. Formats follow the extension or the -ifmt / -ofmt options, printed informations are those of '
     'the resulting mesh; invalid requests end by an error with nothing written, and input files are never modified.',
     ['inputs', 'configurations'], 'all watertight and open meshes, all combinations and orders of options, all formats',
     'no test runs the command line: each option is wired by hand to the library and they interact through their order',
     [CLI, MMIO, MESH, CLIP], [('get_parser, main', CLI), ('load_mesh, write_mesh', MMIO)],
     'property-based testing, model of the pipeline of the command line',
     'Random command lines are compared with a model of the pipeline on lists of polygons.')

prop('C19', 'Planes, their frames, projections, intersections and symmetries are consistent',
     'Whatever the way a plane has been built and then changed (normal, scalar, angles, successive rotations, flip), its '
     'unit normal and scalar agree, its frame is orthonormal, direct and follows the normal, and distances, orthogonal '
     'projections, coordinates in its frame, intersections with edges and symmetrized points or vectors are those of '
     'Euclidean geometry. Points and vertices given are not modified.',
     ['inputs', 'histories'], 'all normals and scalars, all histories of changes, all points and edges',
     'tests build a few horizontal planes; frames and scalars go wrong after particular sequences of changes',
     [MESH], [('Plane', MESH)], 'stateful property-based testing, Euclidean geometry oracle',
     'Histories of up to 6 changes, compared with an independent model after every step.')

prop('C20', 'Conversions between representations of rotations are equivalent',
     'Cardan angles, rotation matrices, quaternions and axis/angle representations of a rotation all describe the same '
     'rotation after any path of conversions, including half turns, rotations by tiny angles and the gimbal lock. '
     'Matrices that come out are orthogonal of determinant 1, quaternions are of unit norm, arguments are not modified, and '
     'quaternions of the wrong size are refused.',
     ['inputs', 'histories'], 'all rotations and paths of conversions',
     'tests convert random angles back and forth; the singular configurations have null measure',
     [ROT], [('cardan_to_rotmat, rotmat_to_cardan, quat_to_*, *_to_quat, axis_angle', ROT)],
     'property-based testing, differential oracle (Rodrigues formula)',
     'Rotations are compared within 1e-12 after each conversion (3e-8 where the matrix is that of the gimbal lock in double precision).')

prop('C21', 'Inertia of rigid bodies is transported consistently between points',
     'For any mass distribution, the inertia matrix announced at any reduction point, reached by any history of changes '
     'of reduction point, is the one of this mass distribution about this point: transport is exact (Huygens), '
     'reversible and path independent, and mass and center of gravity do not change. Objects do not depend on later '
     'changes of the arrays that they have been given.',
     ['inputs', 'histories'], 'all mass distributions, points and histories',
     'tests transport a few inertias once; the sign and the reference of transport matter only away from the cog',
     [INERTIA], [('RigidBodyInertia', INERTIA)], 'stateful property-based testing, mass distribution oracle',
     'Compared with sums over point masses, or exact integrals on tetrahedra.')

prop('C22', 'Inertias of usual shapes and densities are those of the actual bodies',
     'For each solid and shell shape of the library and for any dimensions, density and thickness, the mass, center of '
     'gravity and inertia matrix are those of the actual homogeneous body. The densities of media are always positive, '
     'found whatever the case of their names, and unknown media are refused.',
     ['inputs'], 'all shapes, dimensions, densities, thicknesses; all media',
     'tests compare a few shapes with a mesh; a wrong coefficient shows up for specific aspect ratios',
     [INERTIA, DENS], [('right_circular_cylinder, ellipsoid, ... hemispherical_shell', INERTIA), ('get_density', DENS)],
     'property-based testing, numerical quadrature oracle', 'Each shape is integrated by an independent quadrature.')

prop('C23', 'The Hydrostatics object describes its body at every moment of its history',
     'Whatever the history of changes made to a Hydrostatics object (gravity, water density, mass in tons, center of '
     'gravity, additional forces following the body or not, displacement, equilibrium, reset), its properties, residuals, '
     'underwater mesh and report are those of the exact submerged part of the body in its current position; the body '
     'moves rigidly together with its center of gravity and forces; set_displacement and equilibrate reach the balance '
     'that they announce, or tell that they fail; a too heavy mass is refused; reset gives the initial position back; '
     'the mesh and arrays given by the caller are not modified.',
     ['inputs', 'histories'], 'all watertight bodies and histories of changes',
     'no test uses this class; stale or inconsistent quantities only show up after particular sequences',
     [HOLD, CLIP, MESH], [('Hydrostatics, Force', HOLD)], 'stateful property-based testing, exact hydrostatics oracle',
     'Histories of up to 8 changes compared with the exact oracle after each of them.')

prop('C24', 'Objects do not share their state',
     'Meshes that are derived from one another (copy, extraction, addition, clipping, files, hydrostatics, construction '
     'on the same arrays), planes, and the arrays given to them or obtained from them are independent: an operation on '
     'an object modifies no other object, no array given by the caller and no value obtained earlier, and what each '
     'object tells remains about its own data.',
     ['inputs', 'histories'], 'all meshes and histories of operations on a set of objects',
     'tests use one object at a time; shared arrays only show up when two objects are alive',
     [MESH, CLIP, HS, MMIO], [('Mesh, Plane', MESH), ('MeshClipper', CLIP), ('compute_hydrostatics', HS)],
     'stateful property-based testing on a pool of objects, invariance of snapshots',
     'Histories of up to 12 operations on up to 8 objects, all of them being verified after each operation.')

VIEW = 'meshmagick/MMviewer.py'
prop('C25', 'Lids generated by the command line tile the polygons that are given',
     'For any simple polygon given to the -lid option (several of them, in any direction, with a given or the default mesh '
     'size), the mesh that is written is the mesh to which faces have been added that tile each polygon exactly, once, '
     'on the free surface, oriented as the polygon, with edges of the announced size; each lid is also written in its own '
     'file. Wrong lists of coordinates are refused and nothing is written.',
     ['inputs', 'configurations'], 'all simple polygons, mesh sizes, combinations with other options',
     'no test generates a lid; missing or overlapping faces depend on the polygon and on its direction',
     [CLI, MMIO], [('generate_lid, -lid and -mesh_size options', CLI), ('load_OBJ', MMIO)],
     'property-based testing, exact tiling oracle',
     'The faces are compared to the polygon: orientation, area, edges, boundary.')

prop('C26', 'The viewer displays the given objects; its keys toggle what they announce',
     'Whatever the history of objects added and keys pressed, the scene of the viewer is made of the actual faces of the '
     'meshes, of the points, lines and vectors that have been given, with their colors, and of the normals, planes and '
     'axes that are currently toggled on: normals are those of the faces, planes cover the mesh. The file that is saved '
     'is the main object, a screenshot is the picture of the window and leaves the scene unchanged, and quitting ends the '
     'interactions. Mesh.show, Hydrostatics.show and the --show option display the actual mesh, forces and '
     'centers, and do not modify them.',
     ['inputs', 'histories'], 'all meshes and histories of interactions (rendering itself excluded: no display)',
     'no test uses the viewer; its state is only visible after sequences of interactions',
     [VIEW, MESH, HOLD], [('MMViewer', VIEW), ('Mesh.show, Mesh._vtk_polydata', MESH), ('Hydrostatics.show', HOLD)],
     'stateful property-based testing, scene graph compared with a model',
     'The VTK scene graph is read after each interaction of histories of up to 9.')

prop('C27', 'Statistics on the quality of a mesh are those of its faces',
     'For any mesh of triangles and convex quadrangles, print_quality and the --quality option tell, for each kind of '
     'faces, their number and the minimum, maximum, average and standard deviation of the measures of the Verdict manual '
     '(edge ratio, aspect ratio, radius ratio, Frobenius norms, minimal angle) and of the areas, whatever the direction in '
     'which faces are described, and leave the mesh unchanged.',
     ['inputs'], 'all meshes of planar convex faces that are not degenerated',
     'no test looks at the statistics; a face of the wrong kind only counts in mixed meshes',
     [MESH, CLI], [('print_quality, _compute_quality, _vtk_polydata', MESH), ('--quality option', CLI)],
     'property-based testing, measures recomputed from their definitions',
     'The text is parsed and every statistic is compared with the definition of the measure.')

prop('C28', 'A file that cannot be written entirely, or read, is told',
     'Whatever the file format and the way a file is asked for (library, quick save, viewer, command line and its report), '
     'writing ends by an error whenever the file cannot be entirely written: missing directory, target that is a directory, '
     'device that gets full at any byte; reading a file that is missing or empty ends by an error too. Nothing '
     'else is modified (other files, arrays given), nothing announces the file, and the same request made again once there is '
     'room gives the same file as if nothing had happened, whatever was there before.',
     ['inputs', 'crash_points'], 'all formats, all bytes at which the device gets full, all kinds of invalid targets',
     'no test makes a write fail; what is lost depends on the byte at which buffers are flushed',
     [MMIO, MESH, CLI, VIEW], [('write_mesh, write_*', MMIO), ('Mesh.quick_save', MESH), ('main', CLI),
                               ('MMViewer.save, screenshot', VIEW)],
     'fault injection at generated bytes, comparison with the run without fault',
     'Up to 4 faults are injected in each generated write, the file being written again after each of them.')

NA_PROPS = [
    dict(id='C90', title='The picture rendered by the viewer',
         statement='What is drawn in the window of the viewer is the scene: camera, lights, edges, '
                   'texts are visible and readable.',
         over=['inputs', 'histories'], text='all scenes and cameras',
         why='the rendering needs a display', files=['meshmagick/MMviewer.py'],
         mech=[('MMViewer.__init__, show', 'meshmagick/MMviewer.py')],
         reason='there is no display in the sandbox and no oracle for a rendered picture; the scene itself and the screenshots of a given picture are decided by C26'),
]
