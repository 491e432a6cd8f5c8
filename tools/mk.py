"""writes properties.jsonl and MANIFEST.json from one table (python3 tools/mk.py)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, na=None, note=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, na=na, note=note, level=level))

prop('C01', 'Fixed-end reactions of every member load are exact beam theory',
 'For a fixed-fixed prismatic beam of any length, the end reactions used for a transverse or axial point force, a concentrated moment, a torque, and a linearly varying transverse or axial distributed load over any part of the beam, equal those of exact Euler-Bernoulli beam theory. They balance the applied load in force and in moment, and leave both ends without displacement or rotation. This holds for any magnitude and sign of the load and any position on the beam.',
 ['inputs'], 'all loads, positions, extents, lengths and directions',
 'Tests sample a few loads on a few spans; the formulas are polynomials in position and length and a wrong coefficient can vanish at the sampled symmetric positions.',
 ['PyNite/FixedEndReactions.py'], [('closed-form reaction formulas', 'PyNite/FixedEndReactions.py')], ['FER_PtLoad', 'FER_Moment', 'FER_LinLoad', 'FER_AxialPtLoad', 'FER_AxialLinLoad', 'FER_Torque'])

prop('C02', 'Member stiffness is exact and end releases condense it exactly',
 'The stiffness of a frame member equals the exact stiffness of a prismatic beam with the given material, section and end positions: symmetric, and producing no end force under a rigid-body motion. When any stable set of member end degrees of freedom is released, the member stiffness equals the exact static condensation of the unreleased one, so that released ends transmit no force in the released direction and the other ends behave as if the released ones were free to move.',
 ['inputs', 'configurations'], 'all member geometries, materials, sections and stable release patterns',
 'Tests use a single release pattern on one beam; there are thousands of release patterns and each reorders the partitioned matrix differently.',
 ['PyNite/Member3D.py'], [('stiffness and release condensation', 'PyNite/Member3D.py: k, _k_unc, _partition, _partition_D')], ['Member3D.k'])

prop('C03', 'Member local axes and transformation are orthonormal and follow the conventions',
 'For any two distinct end points and any optional auxiliary node not on the member line, the member transformation is an orthonormal right-handed rotation whose first row points from the i-node to the j-node, repeated for the four displacement and rotation triples; without an auxiliary node the local z axis is horizontal and the local y axis points upward, with the documented convention for vertical members, and with an auxiliary node that node lies in the local x-z plane, on the positive z side. Local and global end displacements, end forces, fixed-end reactions and stiffness of a member are related by that rotation.',
 ['inputs'], 'all end-point and auxiliary-node positions',
 'Tests use members along axes or in coordinate planes; the general skew case and both vertical cases have separate branches.',
 ['PyNite/Member3D.py'], [('direction cosines', 'PyNite/Member3D.py: T'), ('rotation of stiffness, forces, displacements', 'PyNite/Member3D.py: K, F, FER, D, d')], ['Member3D.T', 'Member3D.K', 'Member3D.F', 'Member3D.FER', 'Member3D.d'])

prop('C04', 'Loads entered on nodes and members become statically equivalent end forces',
 'Every point or distributed load entered on a member, in local or global direction, at any valid position and in any load case, contributes to the member end reactions of a load combination exactly its factor times the exact fixed-end reaction of that load (condensed for end releases), and contributes nothing to combinations that do not contain its case. Nodal loads enter the nodal force of their direction with their factor. Self-weight equals weight density times area along every member in the given global direction, and invalid directions are refused.',
 ['inputs', 'configurations'], 'any number of loads of every direction and position, any load combination, any member orientation and releases',
 'Tests put one or two loads on axis-aligned members; direction tables, global-to-local projection and combination factors multiply.',
 ['PyNite/Member3D.py', 'PyNite/FEModel3D.py'], [('load accumulation', 'PyNite/Member3D.py: _fer_unc, fer'), ('load entry', 'PyNite/FEModel3D.py: add_member_pt_load, add_member_dist_load, add_member_self_weight, add_node_load, P')], ['Member3D.fer', 'FEModel3D.P'])

prop('C05', 'Internal force diagrams satisfy equilibrium at every section',
 'In a first-order solution, at any position along a member, the reported shear, moment, torque and axial force equal what static equilibrium of the part of the member between its start and that section demands, given the member end forces and every factored point and distributed load applied on that part. Diagrams therefore jump only by applied concentrated actions and end at the member end forces.',
 ['inputs'], 'all positions, all loads and combinations, all end forces',
 'Tests compare a few maxima on simple beams; the diagram is assembled from segments whose starting values are propagated through every load type and direction.',
 ['PyNite/Member3D.py', 'PyNite/BeamSegZ.py', 'PyNite/BeamSegY.py'], [('segmenting of the member', 'PyNite/Member3D.py: _segment_member'), ('segment formulas', 'PyNite/BeamSegZ.py, PyNite/BeamSegY.py')], ['Member3D.shear', 'Member3D.moment', 'Member3D.torque', 'Member3D.axial'])

prop('C06', 'Deflection curves are compatible with end displacements, loads and end moments',
 'In a first-order solution, the deflection reported at any position of a member is the exact beam-theory curve: it meets the displacement of both end nodes, its curvature is the bending moment over the bending stiffness in that plane, and its axial part follows the axial force over the axial stiffness. The relative deflection is the same curve measured from the chord between the displaced ends.',
 ['inputs'], 'all positions, loads, end displacements and rotational end releases',
 'Tests compare midspan or maximum deflections of textbook beams; the curve is the double integral of a segment polynomial whose constants are propagated across every load discontinuity.',
 ['PyNite/Member3D.py', 'PyNite/BeamSegZ.py', 'PyNite/BeamSegY.py'], [('propagation of slope and deflection', 'PyNite/Member3D.py: _segment_member'), ('segment curves', 'PyNite/BeamSegZ.py: deflection, axial_deflection, slope; PyNite/BeamSegY.py: deflection, slope')], ['Member3D.deflection', 'Member3D.rel_deflection'])

prop('C07', 'Reported extremes and result arrays agree with the pointwise results',
 'In a first-order solution, the maximum and minimum shear, moment, torque and axial force reported for a member bound the value at every position of the member and are reached at some position (as the limit from one side at a jump). Maximum and minimum deflection bound the sampled curve, and every result array holds at each requested position the same value as the pointwise query of that result.',
 ['inputs'], 'all segment polynomials, all positions, any number of sample points',
 'Tests check the extremes of a few diagrams; an interior extremum exists only for particular signs of load and shear.',
 ['PyNite/Member3D.py', 'PyNite/BeamSegZ.py', 'PyNite/BeamSegY.py'], [('segment extremes', 'PyNite/BeamSegZ.py: max_shear, min_shear, max_moment, min_moment, max_axial, MaxTorsion'), ('arrays', 'PyNite/Member3D.py: *_array, _extract_vector_results')], ['Member3D.max_moment', 'Member3D.shear_array'])

prop('C08', 'Splitting a member at intermediate nodes leaves its loads and results unchanged',
 'A member passing through intermediate nodes is divided at exactly the nodes lying on it, in order, into pieces that together have its length, properties, activity rules and end releases (only at its two ends), and carry together exactly its point and distributed loads at the same positions with the same intensities. A result queried at a position of the whole member is the result of the piece containing that position, and its extremes and result arrays are those of all its pieces together.',
 ['inputs', 'configurations'], 'any number and order of intermediate nodes, loads spanning any pieces, any position',
 'Tests use members without or with a single intermediate node; loads spanning several pieces, loads at piece boundaries and result arrays over several pieces are not exercised.',
 ['PyNite/PhysMember.py'], [('subdivision and load distribution', 'PyNite/PhysMember.py: descritize'), ('lookup', 'PyNite/PhysMember.py: find_member')], ['PhysMember.sub_members', 'PhysMember.shear'])

prop('C09', 'Global stiffness and load assembly is the exact sum of element contributions',
 'The global stiffness matrix is the sum, at the degrees of freedom of their nodes, of the stiffness of every active spring, active member piece, plate and quadrilateral, plus the stiffness of every active support spring on its own degree of freedom, and nothing else. The global fixed-end reaction vector and the geometric stiffness matrix are likewise the sums of the element contributions. The dense and the sparse assembly are the same matrix.',
 ['inputs', 'configurations'], 'any number and mix of elements, nodes and support springs, any connectivity and numbering',
 'Tests use small models with one element family each; any index slip for one block of one family, or for the dense variant, escapes them.',
 ['PyNite/FEModel3D.py', 'PyNite/Analysis.py'], [('assembly loops', 'PyNite/FEModel3D.py: K, Kg, FER, P'), ('numbering', 'PyNite/Analysis.py: _renumber')], ['FEModel3D.K', 'FEModel3D.Kg', 'FEModel3D.FER'])

prop('C10', 'Solved displacements satisfy supports, enforced values and equilibrium',
 'After an analysis, every supported degree of freedom has zero displacement unless a displacement was enforced on it, every enforced displacement has exactly its given value, and at every other degree of freedom stiffness times displacement equals applied load minus fixed-end reaction. The value reported at each node and direction is the solution component of that degree of freedom, for the combination it was solved for, for every solver option and in the degenerate case where every degree of freedom is known.',
 ['inputs', 'configurations'], 'every pattern of supports, enforced displacements and free degrees of freedom, all loads',
 'Tests cover a handful of support layouts; partitioning, solving and un-partitioning must be inverse permutations for every layout.',
 ['PyNite/Analysis.py', 'PyNite/FEModel3D.py'], [('partition and un-partition', 'PyNite/Analysis.py: _partition_D, _partition, _unpartition_disp, _store_displacements'), ('solution', 'PyNite/FEModel3D.py: analyze, analyze_linear')], ['Node3D.DX', 'FEModel3D.D'])

prop('C11', 'Support reactions balance the elements and the applied loads',
 'At every supported degree of freedom the reported reaction equals the sum of the end forces of all active elements connected to the node minus the factored load applied to the node there; at a degree of freedom held by a support spring instead, it is the force the active spring exerts on the structure; and it is zero in directions without a support or spring. In a first-order solution without deactivated elements and with displacements enforced only at supports, all reactions together with all applied loads satisfy force and moment equilibrium of the whole structure.',
 ['inputs', 'configurations'], 'any mix of elements and connectivity, loads, support patterns',
 'Tests check reactions on a few frames; six directions times two or four ends times four element families are copied code.',
 ['PyNite/Analysis.py'], [('reaction accumulation', 'PyNite/Analysis.py: _calc_reactions')], ['Node3D.RxnFX'])

prop('C12', 'One-way members, springs and supports carry only forces they can carry',
 'When an analysis returns, no active tension-only member or spring is in compression and no active compression-only one is in tension beyond the tolerance, and every one-way support spring is active exactly when its displacement is in its working direction. Inactive ones contribute no stiffness for that load combination, and the activity decided for one load combination does not influence another combination. If no such state is reached within the iteration limit the analysis raises an error.',
 ['inputs', 'configurations', 'histories'], 'all models with one-way elements, every combination order, any number of iterations',
 'Tests use one tension-only and one compression-only frame in one combination; the state machine over iterations and combinations is not exercised.',
 ['PyNite/Analysis.py', 'PyNite/FEModel3D.py'], [('activity update', 'PyNite/Analysis.py: _check_TC_convergence, _prepare_model'), ('iteration', 'PyNite/FEModel3D.py: analyze')], ['PhysMember.active', 'Node3D.spring_DX'])

prop('C13', 'Load combinations are selected by tag and superpose linearly',
 'Displacements, internal forces and reactions of a first-order solution without one-way elements and enforced displacements are, for every combination, the factored sum of those of its load cases, whatever the order of cases and combinations. When tags are given exactly the combinations carrying one of the tags are solved, otherwise all are, and a default combination is supplied when none is defined.',
 ['inputs', 'configurations'], 'all combinations, factors, tags and load cases',
 'Tests solve one or two combinations; linearity and independence of combinations is a relation between runs that no single expected value states.',
 ['PyNite/Analysis.py', 'PyNite/LoadCombo.py', 'PyNite/FEModel3D.py'], [('combination selection', 'PyNite/Analysis.py: _identify_combos'), ('factors', 'PyNite/FEModel3D.py: P; PyNite/Member3D.py: fer; PyNite/Plate3D.py, PyNite/Quad3D.py: fer')], ['FEModel3D.analyze'])

prop('C14', 'Re-analysis depends only on the current model, not on earlier analyses',
 'Analyzing a model gives the same results as analyzing a freshly built identical model, whatever analyses, result queries and edits of the model went before. Results that were stored for an earlier state of the model are not reported after the model has been analyzed again.',
 ['histories'], 'every sequence of edits, analyses of any type, combinations and result queries',
 'One test re-analyzes one model once; stale caches and flags need a specific sequence of operations to show.',
 ['PyNite/Analysis.py', 'PyNite/FEModel3D.py', 'PyNite/Member3D.py', 'PyNite/PhysMember.py'], [('reset', 'PyNite/Analysis.py: _prepare_model, _check_TC_convergence'), ('segment cache', 'PyNite/Member3D.py: _solved_combo')], ['FEModel3D.analyze', 'FEModel3D.analyze_PDelta'])

prop('C15', 'Model editing keeps names unique and references consistent',
 'Every added node, auxiliary node, material, section, element or mesh gets the requested unique name or an unused automatic one, and re-using a name is refused. Deleting a node, auxiliary node, member or spring removes it and everything attached to it so that no remaining element refers to it, renaming all items keeps every item and gives each a distinct key equal to its name, clearing loads removes every load, displacement and reaction, and any edit of nodes, elements, supports or loads marks the model as not solved. Items that refer to unknown nodes are refused and leave the model unchanged.',
 ['histories', 'inputs'], 'every sequence of add, delete, rename and load operations with any names',
 'Tests only add items with fixed names; deletion, renaming and automatic naming are not exercised at all.',
 ['PyNite/FEModel3D.py'], [('model editing', 'PyNite/FEModel3D.py: add_*, delete_*, def_*, rename, unique_name, delete_loads')], ['FEModel3D.nodes', 'FEModel3D.members'])

prop('C16', 'Merging duplicate nodes keeps every connection, support and load',
 'After merging, no two remaining nodes are closer than the tolerance to a kept node they duplicated, every element end that referred to a removed node refers to the node kept at the same place, and elements, supports, support springs, nodal loads and enforced displacements of a removed node act on the kept one (support springs of both nodes in the same degree of freedom and direction act together). The removed nodes are exactly those reported, and nodes further apart than the tolerance are left alone.',
 ['inputs', 'configurations'], 'any number and arrangement of nodes, elements, supports and loads',
 'Only mesh tests merge nodes, on regular grids without loads at duplicates.',
 ['PyNite/FEModel3D.py'], [('merge', 'PyNite/FEModel3D.py: merge_duplicate_nodes')], ['FEModel3D.merge_duplicate_nodes'], level='other',
 note='Contracts of merge_duplicate_nodes discharged symbolically for arbitrary positions, tolerance, supports, springs, loads and element ends (Node3D.distance by its proved contract), but with a stated bound on the number of nodes (<= 4) and elements: bounded, not counted as proved; larger random models executed. Floats are exact reals.')

prop('C17', 'Spring elements act only along their axis with their constant',
 'A two-node spring produces at its ends only equal and opposite forces along the line joining its nodes, equal to its constant times the change of distance (to first order) between them, in any orientation; one that is switched off (tension- or compression-only) produces none. Its stiffness is symmetric, produces no force under rigid translation, and its reported axial force is that force with compression positive.',
 ['inputs'], 'all node positions, constants and end displacements',
 'Tests use collinear horizontal springs; the orientation has separate branches for vertical, horizontal and skew springs.',
 ['PyNite/Spring3D.py'], [('stiffness and rotation', 'PyNite/Spring3D.py: k, T, K, f, d, F, D, axial')], ['Spring3D.K', 'Spring3D.axial'])

prop('C18', 'Rectangular plates satisfy equilibrium, symmetry and the patch test',
 'For any rectangle size, thickness, material and in-plane stiffness modifiers, the rectangular plate stiffness is symmetric, gives no nodal force for rigid-body motions (the fictitious drilling stiffness aside), and reproduces exactly every constant state of membrane strain and of bending curvature and twist: its end forces and its reported moments (positive for a positive second derivative of the deflection) and membrane stresses are those of the exact plate, and its reported shears are the derivatives that balance its moments. Uniform pressure becomes nodal forces in equilibrium with the total pressure.',
 ['inputs'], 'all plate dimensions, materials, modifiers, displacements and pressures',
 'Tests compare displacements of a few benchmark plates to tabulated values with percent tolerances.',
 ['PyNite/Plate3D.py'], [('stiffness', 'PyNite/Plate3D.py: k, k_b, k_m'), ('loads and results', 'PyNite/Plate3D.py: fer, moment, shear, membrane, T')], ['Plate3D.k', 'Plate3D.fer'])

prop('C19', 'Quadrilateral plates satisfy equilibrium, symmetry and the patch test',
 'For any convex quadrilateral, thickness, material and in-plane stiffness modifiers, the quadrilateral stiffness is symmetric, gives no nodal force for rigid-body motions (the fictitious drilling stiffness aside), and a patch of quadrilaterals of any shape reproduces constant membrane and bending states exactly, in nodal forces and in reported moments, shears and membrane stresses. Uniform pressure becomes nodal forces in equilibrium with the total pressure.',
 ['inputs'], 'all convex quadrilateral shapes, materials, displacements and pressures',
 'Tests compare benchmark displacements on rectangular or regular meshes to tabulated values with percent tolerances.',
 ['PyNite/Quad3D.py'], [('stiffness', 'PyNite/Quad3D.py: k, k_b, k_m'), ('loads and results', 'PyNite/Quad3D.py: fer, moment, membrane, T')], ['Quad3D.k', 'Quad3D.fer'])

prop('C20', 'Plate and quad end vectors use their own nodes and their own local axes',
 'For every plate and quadrilateral, the element displacement vector takes the six displacements of each of its four nodes in order, its transformation is an orthonormal right-handed rotation with local x from the i-node to the j-node and local z normal to the element, and stiffness, end forces and load vectors are carried between local and global axes by that rotation.',
 ['inputs'], 'all node positions and displacements',
 'Tests use elements in coordinate planes or regular tanks; copied index blocks per node are not separated by them.',
 ['PyNite/Plate3D.py', 'PyNite/Quad3D.py'], [('transformations', 'PyNite/Plate3D.py: T, D, d, F, K, FER; PyNite/Quad3D.py: T, D, d, F, K, FER, _local_coords')], ['Plate3D.T', 'Quad3D.T'])

prop('C21', 'Mesh generators produce complete, conforming meshes of the requested shape',
 'Every generated mesh (rectangle with openings and control points, annulus, frustrum, cylinder) covers exactly the requested shape with non-overlapping positively sized elements whose corners are nodes of the mesh lying on the shape, uses unique names not already in the model, and shares nodes between neighbouring elements. Element size does not exceed the requested size along each direction of a rectangular mesh, and all generated nodes and elements are in the model with the given thickness, material and stiffness modifiers.',
 ['inputs', 'configurations'], 'all sizes, openings, control points, origins, planes and axes',
 'Tests generate a few regular meshes at the origin.',
 ['PyNite/Mesh.py', 'PyNite/FEModel3D.py'], [('generators', 'PyNite/Mesh.py')], ['Mesh.nodes', 'Mesh.elements'], level='other',
 note='Proved for any number of rings: the ring loops of annulus and cylinder, over ring contracts, and the entry of meshes into models of arbitrary content. Bounded (stated subdivision counts, symbolic sizes, radii, origins, openings and control points): the element grids of rectangles and rings. Larger random meshes are executed. Floats are exact reals; bounded units are not counted as proved.')
prop('C22', 'P-Delta analysis solves equilibrium on the geometrically stiffened structure',
 'A member carrying an axial force has exactly the consistent geometric stiffness of a prismatic beam with that force, and it is zero without axial force. A P-Delta analysis returns displacements that satisfy equilibrium with elastic plus geometric stiffness for the axial forces of the previous iteration, honours supports and enforced displacements, gives the first-order result when no member carries axial force, and the dense and sparse solvers agree.',
 ['inputs', 'configurations'], 'all models, loads and solver options',
 'Tests check two or three AISC benchmark columns with the sparse solver only.',
 ['PyNite/Analysis.py', 'PyNite/Member3D.py', 'PyNite/FEModel3D.py'], [('geometric stiffness', 'PyNite/Member3D.py: kg; PyNite/FEModel3D.py: Kg'), ('iteration', 'PyNite/Analysis.py: _PDelta_step')], ['FEModel3D.analyze_PDelta'])

prop('C23', 'Unstable nodes are detected and stable models are not rejected',
 'When the stability check is on, a model with a node degree of freedom that has no stiffness and no support is refused with an error that names the node and direction, and a model in which every unsupported degree of freedom has stiffness is not refused by that check. When the equation solver finds the structure singular, with either solver and any analysis type, no displacements are reported: the analysis raises an error.',
 ['inputs', 'configurations'], 'all models, node orders and support patterns',
 'One test checks one unstable model.',
 ['PyNite/Analysis.py', 'PyNite/FEModel3D.py'], [('stability check', 'PyNite/Analysis.py: _check_stability')], ['FEModel3D.analyze'])

prop('C24', 'Pushover analysis follows the yield surface',
 'In a pushover analysis no member end force exceeds the yield surface of its section, plastic hinges form exactly where the surface is reached, and unloading from a hinge is elastic.',
 ['inputs', 'histories'], 'all models and load histories',
 'The only test of it is disabled.',
 ['PyNite/FEModel3D.py', 'PyNite/Analysis.py', 'PyNite/Section.py'], [('pushover', 'PyNite/FEModel3D.py: _not_ready_yet_analyze_pushover')], ['none'],
 na='the feature is unfinished at this commit (the method is named _not_ready_yet_analyze_pushover, its only test file is excluded, and its step loops forever by construction): there is no behaviour to put under contract')
prop('C25', 'Rendered pictures and reports show the solved results',
 'Rendered models, deformed shapes, contours and printed reports show the geometry and the results of the selected load combination.',
 ['inputs'], 'all models', 'No test renders anything.',
 ['PyNite/Visualization.py', 'PyNite/Rendering.py', 'PyNite/Reporting.py'], [('rendering', 'PyNite/Visualization.py')], ['none'],
 na='the effect is a picture drawn by VTK/PyVista or a PDF made by external programs, which are not installed in the sandbox and whose drawing calls are outside any deductive contract here')

prop('C26', 'Mesh extremes bound the results of all elements and combinations',
 'The maximum and minimum shear or moment a mesh reports for a direction, local or global, is at least (at most) the value at every corner and at the center of every rectangular or quadrilateral element of the mesh, for the given load combination or for all of them when none is given, and is one of these values.',
 ['inputs', 'configurations'], 'any number of elements of both kinds, any results, directions and combinations',
 'Tests compare one or two tank maxima to tabulated values with percent tolerances.',
 ['PyNite/Mesh.py'], [('mesh extremes', 'PyNite/Mesh.py: max_shear, min_shear, max_moment, min_moment')], ['Mesh.max_shear', 'Mesh.min_shear', 'Mesh.max_moment', 'Mesh.min_moment'])

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']: na.append({'property': p['id'], 'reason': p['na']}); continue
        if not os.path.exists(os.path.join(V, 'contracts', p['id'] + '.py')):
            na.append({'property': p['id'], 'reason': 'contracts not built yet'}); continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
            'technique': 'contract-based deductive verification of the real Python code (path-wise VC generation, loop rule, ring normal form + z3/cvc5); bounded contract execution as labelled stand-in',
            'level': p['level'],
            'level_note': p['note'] or NOTE})
    json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/smoke.py', 'checks': checks, 'not_applicable': na,
        'notes': 'no hooks: contracts live in /verif/contracts and are attached to the functions imported from /repo on every run'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
NOTE = ('Obligations are generated from the current source of the functions under contract and discharged for all real inputs; floats are treated as exact reals, numpy array operations as their mathematical meaning. '
        'Units marked bounded in the evidence are executed contracts only and are not counted as proved.')
if __name__ == '__main__': main()
