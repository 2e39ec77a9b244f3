"""Writes properties.jsonl and MANIFEST.json (and checks them against the schemas when jsonschema is there)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python harness/run.py'

MESH, CLIP, HS, MMIO = ('meshmagick/mesh.py', 'meshmagick/mesh_clipper.py', 'meshmagick/hydrostatics.py',
                        'meshmagick/mmio.py')
INERTIA, ROT, TOOLS, CLI, DENS = ('meshmagick/inertia.py', 'meshmagick/rotations.py', 'meshmagick/tools.py',
                                  'meshmagick/cli.py', 'meshmagick/densities.py')

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


prop('C01', 'Derived quantities of a mesh are never stale, whatever its history',
     'After any sequence of operations on a mesh (moves, scalings, flips, healing, merging, triangulation, mirror, '
     'symmetrization, assignment of vertices or faces) interleaved with any queries, every derived quantity (areas, '
     'centers, normals, triangle and quadrangle counts, connectivities, boundaries, closedness, volume, surface '
     'integrals, inertias, edge lengths) equals the one of a mesh newly built from the current vertices and faces. '
     'Queries themselves change neither vertices nor faces, and a copied mesh stays independent of the original.',
     ['histories', 'inputs'], 'all meshes and all interleavings of queries and mutating operations',
     'tests query a mesh before or after a single operation on a few files; caches go wrong only for particular '
     'orders of query, mutation and query',
     [MESH], [('caches of faces properties, connectivity and surface integrals and their invalidation', MESH)],
     'stateful property-based testing, differential oracle (fresh mesh)',
     'Histories of up to 6 operations with queries in between are compared with a mesh rebuilt from scratch.')

prop('C02', 'Transformations act on the geometry exactly as defined',
     'Translations, rotations (about fixed axes, by one or three angles or by a matrix), scalings, mirror and flip of '
     'normals move every vertex by the exact linear map they stand for and keep faces, except that flipping reverses '
     'them; rotations return the matrix that has been applied. Each transformation followed by its inverse gives back '
     'the initial mesh.',
     ['inputs', 'histories'], 'all meshes, all arguments, up to three successive transformations',
     'tests apply a few fixed translations to one file and check almost nothing of the result',
     [MESH, ROT], [('translate*, rotate*, scale*, mirror, flip_normals', MESH), ('cardan_to_rotmat', ROT)],
     'property-based testing, independent linear algebra oracle',
     'Vertices are compared with an independent computation within rounding errors.')

prop('C03', 'Areas, volume, inertias, boxes and edge lengths are the exact integrals',
     'For every mesh with flat faces, areas, centers and unit normals of faces are those of the polygons; for closed '
     'surfaces the volume, mass, center of gravity and inertia matrix of the filled body, and for any surface those of '
     'the shell, equal the integrals over the exact geometry, whatever the mix of triangles and quadrangles. Bounding '
     'boxes contain all vertices tightly and edge lengths statistics are those of the edges of the faces.',
     ['inputs'], 'all meshes with flat faces, densities and thicknesses',
     'tests compare a few shapes (cylinder) with loose tolerances; errors depend on the position, on the face types '
     'and on the numbering',
     [MESH, INERTIA], [('_faces_properties, _compute_faces_integrals, eval_plain_mesh_inertias, '
                        'eval_shell_mesh_inertias, _edges_stats', MESH)],
     'property-based testing, exact integration oracle',
     'Oracle integrates polynomials exactly over triangles / tetrahedra by another formula.')

prop('C04', 'Connectivities, boundaries and closedness are those of the edges of the mesh',
     'For every conformal mesh, the connectivity between vertices, from vertices to faces and between faces are exactly '
     'those given by the faces, every edge that belongs to a single face is in exactly one boundary line, and a mesh is '
     'reported closed if and only if it has no such edge, and conformal if and only if no edge is split on one of its '
     'sides only (a boundary that encloses nothing). Edges that belong to more than two faces are refused each time '
     'something is asked, or everything that is given is right.',
     ['inputs'], 'all conformal meshes, with any number of holes and components, any numbering and orientation',
     'tests load closed meshes and never check the content of the connectivities',
     [MESH], [('_connectivity, boundaries, is_mesh_closed, is_mesh_conformal', MESH)],
     'property-based testing, brute-force edge map oracle', 'Sets of edges are compared exactly.')

prop('C05', 'Merging, cleaning and removal operations are complete and keep the geometry',
     'Merging duplicates leaves no two vertices within the tolerance of each other, moves no vertex by more than the '
     'tolerance and keeps the corners of every face; removing unused vertices keeps exactly those used by faces; '
     'removing degenerated faces removes exactly the faces whose area is negligible; healing of triangles only rewrites '
     'indices. Idempotence holds, and the renumbering that is returned maps old vertices to new ones.',
     ['inputs'], 'all meshes with duplicated / unused vertices, degenerated faces and the four descriptions of '
     'triangles, all tolerances',
     'tests run merge_duplicates on one file; a missed pair or a wrong index needs particular coordinates and orders',
     [MESH, TOOLS], [('merge_duplicate_rows', TOOLS), ('merge_duplicates, remove_unused_vertices, '
                                                       'remove_degenerated_faces, heal_triangles', MESH)],
     'property-based testing, brute-force oracle', 'Brute-force comparison of all pairs of vertices and faces.')

prop('C06', 'Healing makes normals consistent and outward without altering the surface',
     'For every orientable conformal mesh whose faces have arbitrary orientations, healing normals makes the faces of '
     'each connected component consistently oriented, with outward normals for a connected closed surface, and changes '
     'nothing but the orientation of faces. Global healing recovers the surface from a mesh with duplicated or unused '
     'vertices, degenerated faces and reversed faces.',
     ['inputs'], 'all surfaces and all subsets of reversed faces',
     'tests heal one file without checking orientations', [MESH], [('heal_normals, heal_mesh', MESH)],
     'property-based testing, validity predicate on oriented edges', 'Orientation consistency decided on directed edges.')

prop('C07', 'Extraction, addition, triangulation, symmetrization and copy preserve surfaces',
     'Extracting faces gives exactly the faces asked for with their geometry and, on demand, the initial numbers of '
     'vertices; adding meshes gives the union of their faces; triangulating replaces each quadrangle by two triangles '
     'covering it with the same orientation and leaves no quadrangle; symmetrizing gives the mesh and its mirror image '
     'with consistent orientations, closing halves of bodies. Operands are left unchanged where a new mesh is returned.',
     ['inputs'], 'all meshes, all subsets of faces, all planes',
     'tests call these operations on one file and do not compare the geometry',
     [MESH], [('extract_faces, __add__, triangulate_quadrangles, symmetrize, copy', MESH)],
     'property-based testing, geometric oracle', 'Face by face comparison of corners.')

prop('C08', 'Clipping keeps exactly the part of the surface lying under the plane',
     'For every mesh and plane, the clipped mesh is the part of the surface below the plane: same area, area vector and '
     'moments as the exact clipped polygons, no vertex above the plane beyond the vicinity tolerance, same orientation; '
     'the parts on both sides add up to the whole surface. A mesh entirely above the plane is refused and one entirely '
     'below is returned whole.',
     ['inputs'], 'all closed or open meshes, all planes, including planes through vertices, edges and faces or within '
     'the vicinity tolerance of vertices',
     'tests clip one cylinder by random planes and only check that nothing is raised',
     [CLIP], [('_vertices_positions_wrt_plane, _partition_mesh, _clip_crown', CLIP)],
     'property-based testing, exact polygon clipping oracle',
     'Moments of the clipped surface compared with Sutherland-Hodgman clipping of every face.')

prop('C09', 'Intersection polygons are the section; clippers are reusable and independent',
     'The closed polygons given by the clipper bound exactly the section of a closed mesh by the plane (same area and '
     'moments, closed chains of vertices in the plane, none of which runs twice through a vertex), open lines end on the boundary of an open mesh. A clipper reused '
     'with other planes gives the same result as a new one, and clippers neither modify their mesh and plane nor '
     'influence one another.',
     ['inputs', 'histories'], 'all meshes and sequences of planes',
     'tests use one clipper on one file without looking at polygons',
     [CLIP], [('_clip_crown, closed_polygons, open_lines, plane setter', CLIP)],
     'property-based testing (stateful for the reuse), exact section oracle',
     'Section computed edge by edge by the oracle, compared through line integrals.')

prop('C10', 'Hydrostatics are those of the exact submerged body',
     'For every watertight mesh, correction of position and attitude, density and gravity, the displaced volume, '
     'mass, buoyancy center, wetted surface, waterplane area and center, draft, lengths, metacentric radii and heights, '
     'stiffness matrix and inertia are those of the exact submerged part, expressed in the frame and at the point '
     'documented, and inputs are not modified. Bodies that do not cross the free surface or are not watertight are '
     'refused.',
     ['inputs', 'configurations'], 'all watertight meshes, positions, densities, centers of gravity and options',
     'tests compare one ship in one position with recorded values',
     [HS, CLIP, MESH], [('compute_hydrostatics', HS)],
     'property-based testing, independent hydrostatics oracle', 'Everything is recomputed from the clipped polygons.')

prop('C11', 'Equilibrium in displacement reaches the target or says that it does not',
     'Whatever the initial altitude, the vertical correction that is returned without notice gives a displacement equal '
     'to the target within the relative tolerance; it is found for convex bodies unless vertices lie next to the target waterplane, targets beyond the whole '
     'volume are refused by telling the limit that is reached, and the mesh given is not modified.',
     ['inputs'], 'all watertight meshes, initial altitudes, targets and tolerances',
     'tests solve a single case', [HS], [('displacement_equilibrium', HS)],
     'property-based testing, exact submerged volume oracle', 'Displacement recomputed at the altitude found.')

prop('C12', 'The 3-dof equilibrium that is announced balances weight and buoyancy',
     'The rotation and altitude returned without notice form a rigid motion for which the displacement equals the target '
     'and the center of gravity lies on the vertical of the buoyancy center within the tolerance; it is found for '
     'ship-like bodies close to equilibrium (unless vertices lie within a few millimeters of the waterplane there), and mesh and center of gravity given are not modified.',
     ['inputs'], 'all watertight meshes, attitudes, centers of gravity, targets and tolerances',
     'tests solve a few loadings of one ship and do not check the balance', [HS], [('full_equilibrium', HS)],
     'property-based testing, exact hydrostatics oracle', 'Balance recomputed independently in the configuration found.')

prop('C13', 'Hydrostatic reports and the hydrostatics of the command line tell the truth',
     'Every line of the hydrostatic report holds the value of the configuration it describes, with its unit, including '
     'stability notes and the length between perpendiculars in use. In its four modes the command line writes the mesh '
     'at the position it reports, which has the displacement and balance asked for, and saves the same report.',
     ['inputs', 'configurations'], 'all watertight meshes, four modes (zcog, displacement, displacement and cog, cog), '
     'options for lpp, density and gravity',
     'no test runs the command line or reads a report', [HS, CLI], [('get_hydrostatic_report', HS), ('main', CLI)],
     'property-based testing, independent parser and hydrostatics oracle', 'Text is parsed and compared within rounding.')

prop('C14', 'A mesh written then read back is the same mesh in every read/write format',
     'For every mesh of triangles and quadrangles and every format that is both written and read, loading the written '
     'file gives the same faces in the same order with the same vertices within the precision of the format (formats '
     'made of triangles split quadrangles, formats without numbering duplicate vertices).',
     ['inputs', 'configurations'], 'all meshes including large ones, one-face ones and those with unused vertices; all '
     'formats by keyword', 'tests read and write one file without comparing', [MMIO], [('load_* / write_*', MMIO)],
     'property-based round-trip testing', 'Geometry compared with the number of digits of the format.')

prop('C15', 'Loaders give the mesh that the file describes, whatever its allowed layout',
     'For the 19 readable formats, loading any valid file (comments, blank lines, CRLF, spacing, numbers in any '
     'notation, several sections, non contiguous numbering, other elements) gives exactly the vertices and faces that '
     'the file describes; converting along a chain of formats preserves the mesh.',
     ['inputs', 'configurations'], 'all valid files of the readable formats, within the layouts that the format allows',
     'tests read one sample file per format and only check that nothing is raised', [MMIO], [('load_*', MMIO)],
     'property-based testing with independent writers', 'Files come from writers of the harness, not from the library.')

prop('C16', 'Written files hold the whole mesh in the conventions of their format',
     'Every written file, read by a strict independent reader, holds all vertices and faces with the numbering, counts '
     'and symmetry flags of its format; vertices and faces given are not modified. Formats that cannot be written are '
     'refused without creating or altering any file.',
     ['inputs', 'configurations'], 'all meshes, memory layouts of arrays, formats and file names',
     'tests write a file and do not look at it', [MMIO], [('write_*, write_mesh', MMIO)],
     'property-based testing with independent strict readers', 'Independent parsers of every written format.')

prop('C17', 'Malformed files are refused, never loaded as a wrong mesh, never a hang',
     'Loading a truncated, corrupted or mislabelled file ends in bounded time with an error or a mesh whose faces all '
     'refer to existing vertices, with finite coordinates; a file cut before the end of its data is never silently loaded '
     'as a smaller mesh where the format declares its size.',
     ['inputs', 'fault_sequences'], 'all truncations, and line, word and character corruptions of valid files',
     'tests only read valid files', [MMIO], [('load_*, load_mesh, _check_file', MMIO)],
     'mutation-based fuzzing with validity oracle', 'Structured mutations of valid files of an independent writer.')

exec(open(os.path.join(HERE, 'tools', 'specs2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'specs2.py')) else None

NA = []


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(HERE, 'harness', 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in claimed + NA_PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    man = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python tools/setup.py',
        'checks': [{
            'property': p['id'], 'quick_cmd': '%s %s' % (PY, p['id']),
            'thorough_cmd': 'env VERIF_TIER=thorough %s %s' % (PY, p['id']),
            'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in claimed],
        'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA_PROPS],
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(claimed), 'claimed')


if 'NA_PROPS' not in globals():
    NA_PROPS = []
if __name__ == '__main__':
    main()
