"""Writes /verif/properties.jsonl (kept as a script so the records stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
D, C, S, M, T = ("graphicle/%s.py" % n for n in ("data", "calculate", "select", "matrix", "transform"))

p("C01", "Data arrays ingest records without loss, reordering or relabelling",
  "Building a momentum, colour, PDG, helicity, status, mask or adjacency object from a sequence of rows, a 2-D array of any memory layout, a structured array with its fields in any order (momentum fields may be called x/px, y/py, z/pz, e/pe/E; edge fields in/src, out/dst), or one flat record stores every component under its own name, in the given row order. The named component accessors, the structured view, iteration and the length all agree with what was put in. Input whose number of columns does not fit the type is rejected with ValueError.",
  ["inputs", "configurations"], "all component values, all field orders and aliases, row- and column-major layouts, 0..4 rows",
  "Tests build momenta from one list of one row and PDG codes from one arange; no structured input, field permutation, alias, memory layout or colour/edge input is exercised.",
  [D], [("_array_field converter, _reorder_pmu, _reorder_edges, _row_contiguous", D), ("MomentumArray/ColorArray/AdjacencyList data views", D)],
  ["MomentumArray(...).x/.y/.z/.energy/.data", "ColorArray(...).color/.anticolor", "AdjacencyList(...).edges", "list(array)", "len(array)"])
p("C02", "Subscripting a data array selects exactly the requested rows",
  "For every particle data array, mask and adjacency list, subscripting with an integer, a slice, a boolean list or array, an index array, a MaskArray or a MaskGroup gives an object of the same type holding exactly the rows numpy would select, in the same order, with all their components. A mask object selects the same rows as the equivalent boolean array, and an integer gives a one-record object.",
  ["inputs"], "all contents and all masks / indices / slices over 0..4 rows",
  "No test subscripts with a mask, slice or index array.",
  [D], [("__getitem__ of each array class", D)], ["PdgArray[...]", "MomentumArray[...]", "ColorArray[...]", "HelicityArray[...]", "StatusArray[...]", "MaskArray[...]", "AdjacencyList[...]"])
p("C03", "Slicing an event record keeps all particle attributes aligned",
  "Subscripting a ParticleSet or Graphicle applies the same selection to every attribute that holds data (PDG codes, momenta, colours, helicities, statuses, final flags, and the edges with their weights of a graph), so row i of each attribute still describes the same particle; attributes without data stay empty. The length of a record is its number of particles, and it is truthy exactly when some attribute holds data.",
  ["inputs", "configurations"], "all attribute values, all masks/slices/indices, and all subsets of populated attributes, up to 3 rows",
  "No test builds or slices a composite record.",
  [D], [("_composite_getitem/_composite_len/_composite_bool/_nonempty_dsets", D)], ["ParticleSet[...]", "Graphicle[...]", "len()", "bool()"])
p("C04", "Copies are complete and independent of the original",
  "copy() of any array, mask, mask group (at every nesting level) or composite record returns an object of the same type with the same contents (edge weights and aggregation rule included), and writing to either one afterwards never changes the other.",
  ["inputs", "histories"], "all contents, write positions and written values; mask groups nested two deep",
  "copy() is only used as a helper in tests, never checked for completeness or aliasing.",
  [D], [("copy methods, _composite_copy", D)], ["x.copy()"])
p("C05", "Mask algebra is element-wise boolean algebra",
  "For mask arrays, mask groups and boolean numpy arrays in any combination with a mask object on the left, &, | and ~ compute conjunction, disjunction and negation at every position, == and != compare position by position, and assigning to a subset of a mask changes exactly that subset. Operands are never modified, masks of different length are rejected by == and != with ValueError, and operands that are neither masks nor numpy arrays are rejected with ValueError.",
  ["inputs"], "all boolean values, lengths 0..6 and 70, all operand-kind combinations",
  "Tests never apply an operator to a mask.",
  [D], [("MaskArray/MaskGroup operators, _mask_eq, _mask_neq, _mask_compat", D)], ["m1 & m2", "m1 | m2", "~m", "m1 == m2", "m1 != m2", "m[key] = value"])
p("C06", "A mask group aggregates by its rule and acts as an ordered mapping",
  "The data of a mask group is, at each position, the conjunction ('and', the default), or disjunction ('or') of its members' data, nested groups being aggregated by their own rule first; with the rule 'none' reading it raises ValueError, while bitwise_and() and bitwise_or() always apply the named operation; an aggregate is a mask of its own, and writing to it leaves the members alone. Keys keep insertion order under construction, assignment and deletion, a member that is replaced or deleted is itself left as it was, subscripting with a list of keys gives the group of those members, with a non-string selection it applies the selection to every member recursively, and either keeps the aggregation rule; to_dict gives the data of each member by its key.",
  ["inputs", "histories"], "all mask contents (0..4 positions), all agg rules at two nesting levels, insert/replace/delete sequences",
  "The only mask-group test covers serialisation of groups with the default rule.",
  [D], [("MaskGroup.data/bitwise_and/bitwise_or/__getitem__/__setitem__/__delitem__", D)], ["MaskGroup(...).data", "group[key]", "list(group)"])
p("C07", "Serialised data restores the same object; equal_to is exact",
  "serialize() of any array, mask, mask group or composite record yields plain Python data holding every component of every populated attribute in order, and building an object of the same kind from it restores identical contents (rows, keys and nesting; edge weights and aggregation rules have no place in the serialised form). equal_to() on mask groups is true exactly when keys (and their order, if asked), nesting and every boolean agree.",
  ["inputs"], "all contents up to 3 rows; pairs of mask groups nested two deep with all leaf values and key orders",
  "One randomised test serialises mask groups; it never checks that equal_to rejects a difference, nor any other type.",
  [D], [("serialize methods, _maskgroup_equal, ParticleSet.serialize, Graphicle.serialize", D)], ["x.serialize()", "MaskGroup.equal_to"])
p("C08", "Flattening and pruning a mask tree keeps exactly the right masks",
  "recursive_drop(key) removes the key at every nesting level and nothing else, changing the original only when asked to work in place. flatten('agg') keeps the top-level keys with each member's aggregate, flatten('rise') lists every named node of the tree except 'latent' with its aggregate, and flatten('leaves') (as leaf_masks) lists exactly the innermost non-latent masks; leaf data are unchanged. What is flattened to its leaves or by 'rise' keeps the tree's aggregation rule, what is flattened by 'agg' aggregates to the union.",
  ["inputs"], "all leaf values and aggregation rules of trees up to three levels deep with latent members",
  "No test calls flatten, leaf_masks or recursive_drop.",
  [D, S], [("MaskGroup.flatten/recursive_drop", D), ("leaf_masks/_leaf_mask_iter", S)], ["MaskGroup.flatten", "MaskGroup.recursive_drop", "select.leaf_masks"])
p("C09", "Numpy arithmetic on data arrays equals arithmetic on their contents",
  "Applying numpy operators and ufuncs (arithmetic, comparison, absolute value, sums along axis 0 or 1, in-place and out= forms) to data arrays gives, component by component, what numpy gives on the underlying numbers; results keep the array type (and its kind of number), results of comparisons on one-column arrays are masks, summing momenta over particles gives a single momentum, and summing over components (axis 1 or -1) one number per row. In-place forms and out= write into their target only.",
  ["inputs"], "all values up to 3 rows, operand kinds array/array, array/numpy, array/scalar, scalar/array",
  "Tests use np.sum and '+' on one example each.",
  [D], [("_array_ufunc, __array_ufunc__, __array_wrap__, __array__", D)], ["a + b", "np.add(a, b, out=...)", "np.sum(a, axis=0)"])
p("C10", "== and != on data arrays compare whole records",
  "Comparing a data array or adjacency list with another of its type, or with a numpy array of the same record type, gives a mask that is true exactly at the rows where all (for !=: not all) components are equal; comparing with a single record as a tuple compares every row with that record. Comparing momenta, colours or edges with something that is no record of theirs (another length, a number, None) raises ValueError.",
  ["inputs"], "all component values up to 3 rows, integer and floating point records",
  "No test compares data arrays.",
  [D], [("_array_eq_prep/_array_eq/_array_ne", D)], ["pmu == other", "color == (c, a)", "adj == edge", "adj != adj"])
p("C11", "PDG masks select exactly the targeted particle species",
  "PdgArray.mask(target) marks false every particle whose code is in target and true every other (the opposite with blacklist=False); unless sign_sensitive is set, particle and antiparticle are not distinguished, whatever the signs used in the data or in target.",
  ["inputs"], "all int32 codes in data (up to 3) and target (up to 2), all flag combinations",
  "No test calls mask().",
  [D], [("PdgArray.mask", D)], ["PdgArray.mask"])
p("C12", "PDG attributes report the record of each particle, in GeV",
  "For every particle in the array each PDG attribute (name, latex, quarks, charge, mass, width, their bounds, isospin, G-, space and charge parity) is the corresponding entry of the lookup table for that particle's own code, in the same order, duplicates included, with masses and widths converted from MeV to GeV; from_name gives, in order, the codes of the particles named, for names which no two particles share, and ValueError for unknown ones. Reading attributes never changes the stored codes or the table.",
  ["inputs"], "all arrays of up to 3 known codes (any repetition), with the numeric table contents left arbitrary",
  "Tests read the names of the six quarks only.",
  [D], [("PdgArray.__get_prop/__get_prop_range and the attribute properties", D)], ["PdgArray.name/.mass/.width/.mass_bounds/.width_bounds/.charge/.isospin/.g_parity/.space_parity/.charge_parity/.quarks/.latex"])
p("C13", "Status codes classify particles correctly",
  "StatusArray.in_range(lo, hi) is true exactly where lo <= status <= hi (no upper limit if hi is omitted), comparing magnitudes unless sign_sensitive is set. hard_mask marks as incoming, intermediate, outgoing and outgoing_nonperturbative_diffraction exactly the particles whose status magnitude is 21, 22, 23 and 24, and aggregates to their union.",
  ["inputs"], "all int16 status codes and all integer bounds, up to 4 particles",
  "No test reads status codes.",
  [D], [("StatusArray.in_range/hard_mask", D)], ["StatusArray.in_range", "StatusArray.hard_mask", "Graphicle.hard_mask"])
p("C14", "Events are converted faithfully and left untouched",
  "from_numpy and from_event put every supplied attribute, edge and weight into the matching attribute of the record, leave the others empty, and take the final-state mask from the event's masks if it has no such attribute. from_lhe_event also marks no particle final and maps Les Houches status codes (-1, 1, 2, -2, 3, -9 to -21, -23, -22, -22, -22, -12), other codes unchanged. None of these modifies the source event or its arrays.",
  ["inputs", "configurations"], "all attribute values incl. all int16 statuses, all subsets of supplied attributes, up to 3 particles",
  "No test builds a record from an event.",
  [D], [("ParticleSet.from_lhe_event/from_numpy, Graphicle.from_event/from_numpy", D)], ["ParticleSet.from_numpy", "ParticleSet.from_lhe_event", "Graphicle.from_numpy", "Graphicle.from_event"])
p("C15", "Nodes, roots and leaves describe the graph's topology",
  "For every edge list, roots marks exactly the edges whose source vertex is not the destination of any edge, leaves marks exactly the edges whose destination vertex is not the source of any edge, and nodes lists every vertex id that occurs exactly once, in ascending order of magnitude. Vertex ids may be any integers; their sign and size must not matter to roots and leaves.",
  ["inputs"], "all edge lists of up to 5 edges with arbitrary int32 vertex ids",
  "No test builds an adjacency list.",
  [D], [("AdjacencyList.nodes/roots/leaves/_edge_relabel/_sparse_unsigned", D)], ["AdjacencyList.nodes", "AdjacencyList.roots", "AdjacencyList.leaves"])
p("C16", "Adjacency matrices and edge lists convert into each other exactly",
  "The matrix of an adjacency list has, at the row and column given by the ranks of two vertex ids in ascending order, the number of edges from the first to the second, or the sum of their weights if weights are set (also when they were set or removed after an earlier reading), and zero elsewhere. from_matrix lists exactly the non-zero entries as edges (with their values as weights if asked), adding one self-loop for every node when asked. to_sparse holds one entry per edge in the same order with the supplied data, or by default whether the destination id is positive.",
  ["inputs"], "edge lists up to 3 edges with arbitrary ids and weights; dense matrices up to 3x3 with arbitrary entries",
  "No test converts an adjacency.",
  [D], [("AdjacencyList.matrix/from_matrix/to_sparse", D)], ["AdjacencyList.matrix", "AdjacencyList.from_matrix", "AdjacencyList.to_sparse"])
p("C17", "Descendant masks contain exactly the reachable edges",
  "vertex_descendants marks exactly the edges that can be reached from the vertex by following edges forwards, starting with its own outgoing edges; for a vertex without outgoing edges it marks the edges entering it. edge_descendants marks the edge itself plus the descendants of its destination. This holds for any directed graph, with shared descendants, repeated edges, cycles, disconnected parts and arbitrary vertex ids, and does not modify the graph.",
  ["inputs"], "all edge lists of up to 5 edges (6 in the thorough tier) with arbitrary int32 vertex ids and any query vertex",
  "No test queries descendants.",
  [S, D], [("vertex_descendants/edge_descendants", S), ("AdjacencyList._edge_relabel/_sparse_csr", D)], ["select.vertex_descendants", "select.edge_descendants"])
p("C18", "Vertex searches find exactly the matching vertices",
  "hadron_vertices lists, each once, exactly the source vertices of the edges whose status magnitude is between 80 and 90. find_vertex returns exactly the vertices, having at least one edge, at which every requested incoming code occurs among the incoming particles and every requested outgoing code among the outgoing particles, and raises ValueError when neither set is given.",
  ["inputs"], "all graphs up to 4 edges for hadron vertices (2-3 for find_vertex) with arbitrary ids, statuses and codes",
  "No test searches for vertices.",
  [S], [("find_vertex, hadron_vertices", S)], ["select.find_vertex", "select.hadron_vertices"])
p("C19", "Hard-process descendants are attributed to the right parton",
  "hard_descendants returns, for each non-incoming parton of the hard process that matches the target codes (all of them by default), in event order and keyed by its particle name (with :0, :1, ... appended when names repeat), a mask holding exactly that parton and the edges descending from its decay vertex (the edges entering it where none leave), and nothing from partons outside its lineage. Missing targets raise ValueError when strict, and having no match at all always does; the graph is not modified.",
  ["inputs", "configurations"], "all graphs up to 4 edges with arbitrary topology, status among hard/non-hard codes, codes from a species palette, all target/strict/sign choices",
  "No test calls hard_descendants.",
  [S], [("hard_descendants, _pdgs_to_keys", S)], ["select.hard_descendants"])
p("C20", "The hard-process hierarchy nests partons under their parents",
  "For events whose hard process is a decay forest, hierarchy places every hard parton under its nearest hard ancestor and no other, at the top level if it has none; the union of a parton's subtree equals that parton together with its descendants; and 'latent' holds exactly the part of it that belongs to none of its hard children. Without intermediate partons it equals hard_descendants. The supplied descendant masks and the graph are not modified.",
  ["inputs"], "decay forests with up to 5 hard partons of arbitrary shape and order, arbitrary shower edges below them",
  "No test calls hierarchy.",
  [S], [("hierarchy, _flat_hierarchy, _hard_parent_matrix, _make_tree", S)], ["select.hierarchy"])
p("C21", "Mixed hadrons are assigned to the nearest incident parton only",
  "partition_descendants leaves each final-state hadron that comes from a hadronisation vertex (vertices sharing no descendants) in a hard parton's mask exactly when the parton incident on that vertex with the smallest (pT-weighted) distance to it belongs to that mask, and leaves latent masks, masks of partons not incident on such a vertex, non-final particles, the input hierarchy and the graph unchanged.",
  ["inputs"], "events with one hadronisation vertex, up to 3 incident partons and 2 hadrons, arbitrary momenta distances, masks and final flags",
  "No test calls partition_descendants.",
  [S, M], [("partition_descendants, _partition_vertex, _hadron_vtx_parton_iter", S), ("parton_hadron_distance", M)], ["select.partition_descendants"])
p("C22", "Colour singlets are exactly the colour-neutral parton groups",
  "color_singlets lists exactly the pairs and triples of coloured outgoing partons of different positions in the leaves (a leaf may hold several or none), named by their leaf, whose set of colours equals their set of anticolours, and with invert=True exactly the coloured leaf partons that are in none of them.",
  ["inputs"], "up to 4 leaves with arbitrary int32 colour and anticolour codes",
  "No test calls color_singlets.",
  [S], [("color_singlets", S)], ["select.color_singlets"])
p("C23", "Overlap detection between masks is exact",
  "any_overlap is true exactly when at least two member masks of the group are both true at some position, for any number of masks, including none or one.",
  ["inputs"], "all groups of 0..4 masks over 0..4 positions, nested members allowed",
  "No test calls any_overlap.",
  [S], [("any_overlap", S)], ["select.any_overlap"])
p("C24", "Centroid pruning keeps exactly the particles within the radius",
  "centroid_prune marks exactly those (pre-selected) particles whose distance in the pseudorapidity-azimuth plane from the given centre, or from the direction of their summed momentum, is below the radius, with the azimuth difference taken around the circle; a particle excluded by the supplied mask is never kept and the result has the length of the input.",
  ["inputs"], "up to 2 particles with arbitrary momenta off the beam axis, any centre, radius and mask",
  "No test calls centroid_prune.",
  [S], [("centroid_prune", S)], ["select.centroid_prune"])
p("C25", "Partons and jets are matched one to one at least total cost",
  "arg_closest gives each focus momentum a different candidate such that the total of the documented pairwise costs is minimal (2 - exp(-dR^2 / 2 var dR) - exp(-dpT^2 / 2 var pT), the variances being those of the focus momentum's distances to the candidates and of the candidates' pT; a term without variance counts as 0), for any numbers of focus and candidate momenta with at least as many candidates, and leaves both inputs and everything already derived from them unchanged.",
  ["inputs", "configurations"], "1..2 partons, 1..3 clusters, one of the momenta arbitrary in one of pT, rapidity and azimuth",
  "No test calls arg_closest.",
  [S, C], [("arg_closest", S), ("_assignment_cost", C)], ["select.arg_closest"])
p("C26", "delta_R is the Euclidean distance in the rapidity-azimuth plane",
  "Entry (i, j) of delta_R is sqrt(dy^2 + dphi^2) between particle i of the first and particle j of the second set, with the azimuth difference taken around the circle and (pseudo)rapidity as selected; it is symmetric in the two sets. Comparing a set with itself equals comparing it with a copy, up to a diagonal of zeros; two particles going the same way along the beam are at zero rapidity distance. delta_R_aff gives the distances within a set, and parton_hadron_distance row i multiplied by pt_i ** pt_exp of the first set.",
  ["inputs"], "up to 2x2 particles with arbitrary momenta, both rapidity choices",
  "No test calls delta_R.",
  [D, C], [("MomentumArray.delta_R", D), ("_delta_R, _delta_R_symmetric", C)], ["MomentumArray.delta_R", "matrix.delta_R_aff", "matrix.parton_hadron_distance"])
p("C27", "Derived coordinates satisfy their defining relations to the components",
  "For every momentum: pt = sqrt(x^2+y^2); mass and mass_t are the signed square roots of e^2-|p|^2 and e^2-z^2; pt*cos(phi)=x and pt*sin(phi)=y; theta is the polar angle; tanh(eta)=z/|p| and tanh(rapidity)=z/e for |z|<e; along the beam axis eta and (for massless particles) rapidity are infinite with the sign of z. Below the pT threshold of 1e-10 phi is NaN with a stability warning, elsewhere it is a number in [-pi, pi].",
  ["inputs"], "all finite momenta (over the reals), one symbolic particle plus row-independence for two",
  "Tests check one momentum with z>0 and e=|p|.",
  [D, C], [("MomentumArray coordinate properties", D), ("_rapidity, _root_diff_two_squares", C)], ["MomentumArray.pt/.mass/.mass_t/.phi/.theta/.eta/.rapidity"])
p("C28", "Boosts and rotations shift the coordinate and preserve invariants",
  "shift_rapidity adds the shift to every rapidity and keeps x, y, transverse mass and invariant mass; shift_phi rotates x-y by the angle and keeps everything else; shift_eta(experimental=True) adds the shift to eta keeping pt and phi, with NaN energy; an iterative shift_eta that does not warn is such a longitudinal boost: a scalar boosts the whole set so that the eta of its summed momentum shifts, an array boosts each particle by its own shift. A scalar shift applies to all particles, an array element by element; the original is never modified, and shifting back restores it.",
  ["inputs"], "all momenta and all shifts (over the reals), 1-2 particles, scalar and per-element shifts",
  "Tests try one momentum and one random scalar shift.",
  [D], [("shift_rapidity/shift_phi/shift_eta", D)], ["MomentumArray.shift_rapidity", "MomentumArray.shift_phi", "MomentumArray.shift_eta"])
p("C29", "Combining particles sums their four-momenta",
  "combined_mass is the invariant mass of the (weighted) sum of four-momenta and 0.0 when its square is negative; aggregate_momenta gives, in order, the summed momentum of the particles selected by each mask; resultant_coords gives the (pseudo)rapidity and azimuth of the summed momentum; weighted_centroid gives the pT-weighted mean (pseudo)rapidity and the pT-weighted mean azimuth brought into [-pi, pi]. None modifies its input.",
  ["inputs"], "up to 3 particles with arbitrary momenta, weights and masks (over the reals)",
  "No test calls them.",
  [C], [("combined_mass, aggregate_momenta, resultant_coords, weighted_centroid", C)], ["calculate.combined_mass", "calculate.aggregate_momenta", "calculate.resultant_coords", "calculate.weighted_centroid"])
p("C30", "Splitting and rotating momenta is rigid and conserves the total",
  "rotation_matrix is the right-handed rotation by the angle about the axis with the given inclination and azimuth. split_momentum returns two momenta summing to the parent, the first having energy fraction z and the parent direction rotated; split_hardest replaces exactly the highest-pT momentum by such a pair at the end, keeping the others in order and the total unchanged, rejects z outside (0, 0.5] and, with no axis given, uses the normal of the plane of the softest and hardest momenta (soft_hard_axis). Inputs are never modified.",
  ["inputs"], "all momenta, angles, axes and fractions (over the reals), sets of up to 3 momenta",
  "One randomised test of split_momentum with one parent; split_hardest, soft_hard_axis and the handedness are untested.",
  [T], [("rotation_matrix, split_momentum, split_hardest, soft_hard_axis, _axis_to_angles", T)], ["transform.rotation_matrix", "transform.split_momentum", "transform.split_hardest", "transform.soft_hard_axis"])
p("C31", "Event-shape formulas and gradients are exact",
  "The C-parameter equals 3/2 * sum_ij |p_i||p_j| sin^2(theta_ij) / (sum|p|)^2, whatever the particle order, overall scale or orientation. The thrust and spherocity objectives used by the minimisers equal their definitions for the given axis, with gradients equal to the derivatives with respect to azimuth and inclination, and the reported value and unit axis are those of the minimiser's result. The search range covers every axis, the same seed gives the same start, and particles at rest contribute nothing.",
  ["inputs"], "up to 2-3 momenta with arbitrary components and arbitrary axis angles (over the reals)",
  "Tests check values for a pencil-like and a spherical event only.",
  [C], [("_c_parameter, _thrust_with_grad, _spherocity_with_grad, _three_norm, thrust, spherocity", C)], ["calculate.c_parameter", "calculate.thrust", "calculate.spherocity"])
p("C32", "The Jaccard distance is a metric on masks",
  "jaccard_distance equals the (weighted) size of the symmetric difference over that of the union, 0 when the union has no weight; for non-negative weights it lies in [0, 1], is symmetric, is zero for equal masks and obeys the triangle inequality. Mask objects and boolean arrays give the same result.",
  ["inputs"], "all masks of up to 4 elements and all non-negative real weights",
  "No test calls jaccard_distance.",
  [C], [("jaccard_distance, _jaccard_distance", C)], ["calculate.jaccard_distance"])
p("C33", "Affinity graphs contain exactly the edges their rule defines",
  "cut_adj links exactly the pairs whose affinity is below ('max') or above ('min') the cut, with the affinity as weight if asked; knn_adj gives every node (row, or column with row=False, of a symmetric matrix) exactly k outgoing edges, to its k nearest others (with self_loop the node itself counts as one of the k), for every feasible k; fc_adj links every pair. Self-edges appear exactly as the flag says. cluster_coeff_distbn gives for each particle the fraction of pairs of its neighbours within the radius that are themselves neighbours, 0 with fewer than two. Input matrices are not modified.",
  ["inputs", "configurations"], "up to 4x4 affinities (symmetric or not, distinct entries for knn) and all flags, cuts and k; up to 4 particles for the coefficients",
  "No test calls the matrix module or cluster_coeff_distbn.",
  [M, C], [("cut_adj, knn_adj, fc_adj", M), ("cluster_coeff_distbn, _clust_coeffs", C)], ["matrix.cut_adj", "matrix.knn_adj", "matrix.fc_adj", "calculate.cluster_coeff_distbn"])
p("C34", "Derived quantities always describe the current momenta",
  "After assigning new data to a momentum array through its data attribute, every derived quantity (pt, mass, mass_t, eta, rapidity, phi, theta, delta_R) is that of the new data whatever had been read before, and the same read repeated gives the same values. Reading derived quantities never changes the momenta or each other.",
  ["inputs", "histories"], "all old and new momenta, all orders of reading any two derived quantities before and after assignment",
  "No test assigns data after reading a derived quantity.",
  [D], [("cached coordinate properties and the data setter of MomentumArray", D)], ["MomentumArray.data = ...", "MomentumArray.mass etc."],
  [dict(name="cached coordinate values", meaning="results of earlier reads kept on the instance", where=D)])
p("C35", "Sampled momenta are physical and isotropic",
  "from_spherical_uniform returns the requested number of momenta, with energy uniform in [0, max_energy] and |p| <= e; each is massless (|p| = e) with the probability given, and otherwise of a mass uniform in [0, e]; it has a direction whose polar-angle cosine is uniform on [-1, 1] (both hemispheres alike) and whose azimuth is uniform; the same seed gives the same momenta and a massless fraction outside [0, 1] raises ValueError.",
  ["inputs", "configurations"], "all outcomes of the random generator (as symbolic variates), all energies and massless fractions, up to 2 particles",
  "Tests only use it as a source of parents.",
  [D], [("MomentumArray.from_spherical_uniform", D)], ["MomentumArray.from_spherical_uniform"])
p("C36", "Results do not depend on threads or scheduling",
  "Every parallel kernel gives the same result for every number of threads and every order in which its loop iterations run, with no two iterations touching the same element in conflict; and functions taking a thread count restore the previous thread setting on every exit, including errors.",
  ["schedules", "inputs"], "all iteration orders and all access conflicts of parallel loops with up to 3 iterations, all thread settings, exceptional exits",
  "Tests run one schedule on one machine and no parallel function.",
  [C, S], [("nb.prange kernels _delta_R, _delta_R_symmetric, _clust_coeffs, _assignment_cost; _thread_scope", C), ("arg_closest", S)], ["MomentumArray.delta_R(threads=)", "calculate.cluster_coeff_distbn(threads=)", "select.arg_closest(num_threads=)"])
p("C37", "Event records are equal exactly when all their attributes are equal",
  "Two ParticleSets, or two Graphicles, without NaN components compare equal exactly when every attribute (including absent ones and the edges of a graph) holds the same data; a record always equals its copy, and != is the negation.",
  ["inputs", "configurations"], "all attribute values, up to 2 particles, all subsets of populated attributes",
  "No test compares composite records.",
  [D], [("attrs-generated equality of ParticleSet and Graphicle", D)], ["particles1 == particles2", "graph1 == graph2"])
p("C38", "Jet clusters are masks over the input in descending transverse momentum",
  "fastjet_clusters hands FastJet the given momenta, component by component and in order, with the algorithm that p_val names (-1 anti-kT, 0 Cambridge-Aachen, 1 kT, otherwise generalised kT with that exponent), the radius and the pT cut. Whatever jets FastJet finds, it returns one mask per jet over the input particles, true exactly at the jet's constituents, in order of descending jet pT, without jets at or beyond the eta cut and then no more than the top_k first. Negative cuts or radii and a top_k that is not a positive integer raise ValueError; the input is not modified.",
  ["inputs", "configurations"], "any jets (momenta and constituents) that FastJet may return for up to 4 particles, any radius, exponent, cuts and top_k",
  "No test uses fastjet.",
  [S], [("fastjet_clusters", S)], ["select.fastjet_clusters"])
p("C39", "Thrust and spherocity find the global optimum over axes",
  "thrust returns the maximum over all axes of the normalised projected momentum, and spherocity the minimum of its objective, for every event and random seed.",
  ["inputs"], "all momenta and all initial guesses",
  "Tests cover two event shapes for which every start converges.",
  [C], [("thrust, spherocity", C)], ["calculate.thrust", "calculate.spherocity"])
p("C40", "Printed event tables show each particle's own attributes",
  "Printing a particle set or graph, as text or HTML, tabulates one row per particle (when there are more than 60, the first and last five around a row of dots) whose cells are that particle's own attributes, name for PDG code, under the matching headers; attributes which are absent have no column; the numbers of particles and of attributes are given below. The record is not modified.",
  ["inputs"], "all records",
  "No test prints a record.",
  [D], [("_table_list, _table_repr", D)], ["str(particles)", "str(graph)"])

p("C41", "Parton clusters hold the right final-state particles",
  "clusters gives one mask over the final-state particles for every named parton of the hierarchy, in the order of the tree. A colourless outgoing parton, or one in a colour singlet, holds exactly its descendants after hadrons of mixed heritage have been attributed; any other coloured outgoing parton holds those of them that lie within the radius of its own (eta, phi); a parton above them holds the union of those below it. The clusters aggregate to their union. The event is not modified.",
  ["inputs", "configurations"], "small decay events with arbitrary hadron directions, radius, colours and final flags",
  "No test calls clusters.",
  [S], [("clusters", S), ("hierarchy, partition_descendants, color_singlets, centroid_prune", S)], ["select.clusters"])
p("C42", "Monte-Carlo tags give every selected hard parton its own jet",
  "monte_carlo_tag names, in event order, every hard parton of the requested kinds (outgoing, statuses +-23, and intermediate, +-22) that the black- or whitelist leaves, and maps it to the cluster mask that arg_closest assigns to it among the summed momenta of the clusters: no parton is left out, no cluster is given twice, and the tags aggregate to their union. Cluster masks run over the final particles of the record, or over the momenta given separately. A request that cannot be met raises: no clusters, neither kind of parton, both lists, fewer clusters than partons or masks of another length a ValueError, no parton left an IndexError. Record, clusters and momenta are not modified.",
  ["inputs", "configurations"], "up to 3 partons with arbitrary statuses and codes from a palette, all selection flags, 2..3 clusters with arbitrary masks",
  "No test calls monte_carlo_tag.",
  [S, D], [("monte_carlo_tag, arg_closest, _pdgs_to_keys", S), ("StatusArray.hard_mask, PdgArray.mask", D)], ["select.monte_carlo_tag"])
p("C43", "Computing from data neither changes them nor depends on earlier results",
  "No property, query, view or analysis function modifies the arrays, masks, groups, graphs or records it is given, in-place operations documented as such aside; and what a call returns depends on the present contents of its arguments only: calling it again, or after any other calls on the same objects, gives what it gives on fresh copies.",
  ["inputs", "histories"], "every call followed by three or more others on the same objects: an event of 7 particles with unknown flags and weights, a set of momenta with unknown ones, nested mask groups",
  "Tests call each function on fresh objects and do not look at the arguments afterwards.",
  [D, S, C, M, T], [("cached properties of MomentumArray, AdjacencyList, StatusArray and MaskGroup", D), ("hierarchy, partition_descendants, monte_carlo_tag, clusters, centroid_prune, arg_closest", S), ("event shapes, centroids", C), ("cut_adj, knn_adj", M), ("split_hardest, soft_hard_axis", T)], ["all properties and functions"])
p("C44", "Results follow the particles, whatever their order and labels",
  "Quantities of each particle or pair (coordinates, shifts, distances, attributes, class masks, clustering coefficients, graph edges) computed for a selection or permutation of a set are that selection or permutation of those of the whole set. Quantities of a whole set (summed momentum, mass, centroid, event shapes, aggregates of masks) do not depend on the order of its members. Descendants, hierarchy, shared hadrons, singlets, clusters and tags follow the rows of the event and the names of the partons, and do not depend on how its vertices are numbered.",
  ["inputs", "configurations"], "3 momenta with one unknown under every order and several selections; events of 7 and 9 particles with unknown final flags under several orders and vertex labellings",
  "Tests use one order and one labelling of each event.",
  [D, S, C, M, T], [("MomentumArray, PdgArray, StatusArray, AdjacencyList", D), ("vertex_descendants, hard_descendants, hierarchy, partition_descendants, color_singlets, clusters, monte_carlo_tag", S), ("weighted_centroid, combined_mass, c_parameter, thrust, cluster_coeff_distbn", C), ("cut_adj, knn_adj", M), ("soft_hard_axis, split_hardest", T)], ["data", "select", "calculate", "matrix"])

p("C45", "numpy reads every data object as the array of its contents",
  "np.asarray and np.array of any particle array, mask, adjacency list or mask group with an aggregation rule give exactly its rows (the aggregate, for a group) with its number type, also of slices, reversed slices, empty selections and copies. numpy functions which take such objects (concatenate, stack, isin, where, flatnonzero, count_nonzero, subscripting of and assignment into plain arrays with masks and groups) give what they give for the contents. A group without a rule raises ValueError when read as an array. Nothing read is modified.",
  ["inputs"], "arrays of 0 to 3 records, whole or sliced; masks and groups (flat, nested) of 0 to 3 positions",
  "Tests convert a few contiguous arrays; a stale or transposed buffer description shows only for some views and types.",
  [D], [("__array_interface__, __array__ of PdgArray, MomentumArray, ColorArray, HelicityArray, StatusArray, MaskArray, AdjacencyList, MaskGroup", D)], ["data"])

p("C46", "Printed mask groups show every mask at its place",
  "str() of a mask group is a tree: the first line names the group's aggregation rule, and below it every mask and nested group appears once, by its exact name (brackets, colons, braces and backslashes included), in the group's order, under the group which holds it, whatever the masks contain. repr() lists the names of the outermost masks in order and the rule. Both follow later changes of the group and leave it as it was.",
  ["inputs"], "every forest of up to 4 masks and nested groups, 10 awkward names, any mask contents",
  "Tests print no groups; names are taken as console markup, and nesting is built by hand.",
  [D], [("MaskGroup.__rich__, __str__, __repr__", D)], ["data"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r) + "\n")
