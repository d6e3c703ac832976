"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = [{"name": state, "where": files[0]}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Group elements obey the group laws and model planar isometries",
 "For cyclic, dihedral, SO(2) and O(2) groups of any order, composing and inverting elements gives elements of the group, is associative with identity and inverses, and agrees (including element equality and membership) with the planar rotations and reflections the elements stand for. Every subgroup obtained from its identifier has the advertised order and embeds injectively and homomorphically; mapping an element of the parent back yields the matching subgroup element exactly when the element lies in the subgroup, and nothing otherwise.",
 ["inputs", "configurations"], "all groups, all orders, all element triples (any real angle, any multiple of a turn), all subgroup identifiers",
 "Tests walk a few small groups; the continuous groups have infinitely many elements and angles that only differ by whole turns or rounding.",
 ["e2cnn/group/groups/cyclicgroup.py", "e2cnn/group/groups/dihedralgroup.py", "e2cnn/group/groups/so2group.py", "e2cnn/group/groups/o2group.py", "e2cnn/group/group.py", "e2cnn/group/groups/factory.py"],
 [("composition, inversion, equality", "Group.combine / inverse / equal / is_element"), ("subgroup embeddings", "Group.subgroup and the parent/child maps"), ("discretisation of continuous groups", "SO2.grid, O2.grid, testing_elements")])

prop("P02", "Representations are homomorphisms with a correct irrep decomposition",
 "Every representation the library hands out (irreps, direct sums, changes of basis, regular, quotient, restricted, and ones built from explicit matrices or by combining others) sends identity to identity, products to products and inverses to inverses, and equals its change of basis applied to the block sum of its listed irreps. The irreps are orthogonal, irreducible, pairwise inequivalent and, for finite groups, complete; reported characters, sizes and triviality agree with the matrices.",
 ["inputs", "configurations"], "all groups, all irreps of any frequency, all nested representation expressions, all group elements",
 "Tests check a handful of groups and sums; the decomposition must hold for every nesting of constructions and every (continuous) group element.",
 ["e2cnn/group/representation.py", "e2cnn/group/irrep.py", "e2cnn/group/utils.py", "e2cnn/group/groups/cyclicgroup.py", "e2cnn/group/groups/dihedralgroup.py", "e2cnn/group/groups/so2group.py", "e2cnn/group/groups/o2group.py"],
 [("irreps", "Group.irrep and _build_representations"), ("direct sum and change of basis", "directsum, change_basis"), ("decomposition of matrix representations", "build_from_discrete_group_representation, homomorphism_space / decompose_representation"), ("characters", "Representation.character")])

prop("P03", "Regular, quotient and induced representations match their definitions",
 "The regular representation permutes the group elements by left multiplication, a quotient representation permutes the cosets of the subgroup, and an induced representation acts by permuting cosets while acting within each block by the subgroup representation, for every group and subgroup for which it can be requested. The nonlinearities a representation is advertised to support are honest: coordinate-wise ones only when it permutes coordinates, signed-concatenated ones only when it permutes coordinates up to sign, norm-based ones only when it preserves the (per-block) norms.",
 ["inputs", "configurations"], "all groups, subgroups and subgroup irreps, all elements",
 "Tests sample a few orders; block order, coset choice and capability labels must be right for every subgroup, including reflections about every axis.",
 ["e2cnn/group/group.py", "e2cnn/group/representation.py", "e2cnn/group/groups/o2group.py", "e2cnn/group/groups/dihedralgroup.py"],
 [("regular representation", "build_regular_representation"), ("quotient representation", "build_quotient_representation"), ("induced representation", "build_induced_representation, O2.induced_representation"), ("capability labels", "Representation.supported_nonlinearities")])

prop("P04", "Restricting to a subgroup keeps the action; disentangling preserves it",
 "Restricting a representation, a field type, a typed tensor or a symmetry space to a subgroup, directly or through a chain of subgroups, yields one that acts for every subgroup element exactly as the original acts for the corresponding parent element, on values and on the plane, leaving the data untouched. Disentangling a representation returns a change of basis and a list of representations whose block sum equals the original action in the new basis.",
 ["inputs", "configurations", "histories"], "all groups and spaces, all subgroup identifiers and chains, all representations, all elements",
 "Tests restrict a few representations of a few groups; branching rules depend on frequency modulo order, reflection axis and basis change.",
 ["e2cnn/group/group.py", "e2cnn/group/representation.py", "e2cnn/group/groups/o2group.py", "e2cnn/group/groups/so2group.py", "e2cnn/group/groups/dihedralgroup.py", "e2cnn/group/groups/cyclicgroup.py", "e2cnn/gspaces/r2", "e2cnn/nn/field_type.py", "e2cnn/nn/geometric_tensor.py"],
 [("irrep branching", "_restrict_irrep"), ("representation restriction", "Group.restrict_representation, Representation.restrict"), ("space restriction", "GSpace.restrict"), ("disentangle", "e2cnn.group.disentangle")])

prop("P05", "Results do not depend on what was computed before",
 "Groups, representations, kernel bases, differential-operator bases, initial weight scales and layers built from the same arguments are the same functions whatever was requested earlier in the process, in whatever order and with whatever other parameters. Caches in memory or on disk change speed only; in particular asking for a higher maximum frequency, another reflection axis, basis size, discretisation or a differently-based representation never changes or corrupts results of other requests.",
 ["histories", "configurations"], "all sequences of construction requests sharing a process, and cache store/load points between them",
 "Tests run in a fresh process per file with a fixed order of requests; cache-key collisions only appear for particular sequences.",
 ["e2cnn/group/groups/factory.py", "e2cnn/group/group.py", "e2cnn/gspaces/r2/general_r2.py", "e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py", "e2cnn/nn/init.py", "e2cnn/diffops/utils.py", "e2cnn/kernels", "e2cnn/diffops"],
 [("group factories", "cyclic_group, dihedral_group, so2_group, o2_group"), ("basis memory", "GeneralOnR2.build_kernel_basis / build_diffop_basis"), ("sampled filter memory", "block_basisexpansion"), ("stencil cache", "diffops.utils load_cache/store_cache/discretize_homogeneous_polynomial")],
 state="process-wide dictionaries of groups, bases, sampled filters, weight variances and stencils")

prop("P06", "Kernel bases satisfy the equivariance constraint, independent and complete",
 "Every element of a kernel basis built for a symmetry space and a pair of representations satisfies, at every point of the plane and for every group element g, k(g.x) = out(g) k(x) in(g)^-1. The elements are linearly independent, span every such kernel of the requested angular frequencies and radii, and sampling a subset of elements or points agrees with sampling all of them.",
 ["inputs", "configurations"], "all symmetry spaces (including every reflection axis), representation pairs, frequency/offset limits, radii, sample points, group elements",
 "Tests check a few irreps at fixed grids and never check that the basis is complete or free of duplicates.",
 ["e2cnn/kernels", "e2cnn/gspaces/r2"],
 [("irrep-level solutions", "e2cnn/kernels/irreps_basis.py"), ("general representations", "e2cnn/kernels/steerable_basis.py"), ("radial profiles", "e2cnn/kernels/basis.py"), ("space to basis wiring", "GSpace._basis_generator and e2cnn/kernels/r2.py")],
 observe="KernelBasis.sample / sample_masked")

prop("P07", "Differential-operator bases are equivariant and exactly discretised",
 "Every differential operator in a basis built for a symmetry space and representation pair transforms under every group element as the equivariance constraint demands, and the operators are linearly independent and complete for the requested orders. Finite-difference stencils produced from them differentiate every polynomial of low enough degree exactly on the sampled grid, at any centred grid size or spacing.",
 ["inputs", "configurations"], "all symmetry spaces, representation pairs, powers and frequencies, grids, polynomials, group elements",
 "Tests check some irreps and a few stencils; exactness over all polynomials, spacings and operators is an infinite family.",
 ["e2cnn/diffops", "e2cnn/gspaces/r2"],
 [("irrep-level operators", "e2cnn/diffops/irreps_basis.py"), ("general representations", "e2cnn/diffops/steerable_basis.py"), ("stencils", "e2cnn/diffops/utils.py"), ("Laplacian powers", "e2cnn/diffops/basis.py")],
 observe="DiffopBasis.coefficients / sample")

prop("P08", "Transforming a feature field is a group action on values and plane",
 "Transforming a typed tensor by a group element moves pixel values by the element's rotation or reflection of the plane and mixes channels by the field's representation. It is linear, the identity does nothing, and for elements that map the pixel grid to itself it is exact and transforming by h then g equals transforming by g.h; transforming only the fibers is exactly the channel mixing.",
 ["inputs", "configurations"], "all symmetry spaces and reflection axes, field types, tensor shapes and contents, elements",
 "Tests look at a few images with loose tolerances; exact agreement with the planar isometry for each axis, order and shape is not sampled.",
 ["e2cnn/gspaces/gspace.py", "e2cnn/gspaces/r2", "e2cnn/nn/field_type.py", "e2cnn/nn/geometric_tensor.py"],
 [("base-space action", "_basespace_action and rotate_array"), ("field action", "GSpace.featurefield_action"), ("typed tensor", "GeometricTensor.transform / transform_fibers")])

prop("P09", "Typed tensors and field types behave like lists of typed channel blocks",
 "A field type behaves as the list of its representations: size, field boundaries, its full representation, addition, selection, sorting, grouping by labels, equality and hashing all agree with that list. Indexing, slicing, splitting, concatenating and arithmetic on typed tensors return precisely the values and the field type obtained by doing the same to the list of per-field blocks, commute with the group action, and never modify their arguments except for in-place operators.",
 ["inputs", "histories"], "all field types, all index expressions (negative, out-of-range, stepped, ellipsis), all operation sequences",
 "Tests use a few fixed slices; Python slicing semantics over fields of unequal size has a large corner-case space.",
 ["e2cnn/nn/field_type.py", "e2cnn/nn/geometric_tensor.py"],
 [("field bookkeeping", "FieldType"), ("slicing", "GeometricTensor.__getitem__"), ("split and concatenate", "GeometricTensor.split, tensor_directsum"), ("arithmetic", "GeometricTensor operators")])

prop("P10", "Convolution and transposed convolution layers are equivariant",
 "For any weights, input and output field types, kernel size, rings, frequency cutoff, groups, bias, padding (mode) and, where the grid allows it, stride and dilation, a steerable (transposed) convolution layer commutes with every rotation and reflection of its symmetry space that maps the pixel grid to itself, and equals an ordinary (transposed) convolution with its expanded filter and bias. The expanded filter satisfies the kernel constraint between any two taps related by a group element, depends linearly on the weights, and each weight has an effect of its own.",
 ["inputs", "configurations"], "all layer configurations, weights and inputs",
 "The stable tests barely touch convolution layers; equivariance must hold for every combination of field types, order of fields and options.",
 ["e2cnn/nn/modules/r2_conv/r2convolution.py", "e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py", "e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py", "e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py"],
 [("layers", "R2Conv, R2ConvTransposed"), ("filter expansion", "BlocksBasisExpansion, SingleBlockBasisExpansion"), ("bias expansion", "bias only on invariant components"), ("sampling grid and cutoffs", "get_grid_coords, compute_basis_params")])

prop("P11", "Differential-operator layers are equivariant and differentiate correctly",
 "For any weights, field types, stencil size, accuracy, order limit, smoothing, groups, bias, padding (mode) and, where the grid allows it, stride and dilation, a differential-operator layer commutes with every rotation and reflection of its symmetry space that maps the pixel grid to itself, and equals an ordinary convolution with its expanded filter. With finite-difference stencils, its response to a polynomial image is a combination of true partial derivatives: equivariant operators up to the order limit and nothing of other orders.",
 ["inputs", "configurations"], "all layer configurations, weights, inputs and polynomial images",
 "The tests for this layer are not among the stable ones; derivative exactness is an infinite family of inputs.",
 ["e2cnn/nn/modules/r2_conv/r2diffop.py", "e2cnn/diffops/utils.py", "e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py"],
 [("layer", "R2Diffop"), ("stencil size and accuracy", "required_points, largest_possible_order"), ("discretisation", "diffops.utils")])

prop("P12", "Train/eval switches, saving and loading never change what a network computes",
 "Along any history of training steps, direct weight edits made in training mode, train/eval switches, copies, state saving and loading between networks in the same mode, a steerable layer or network in evaluation mode computes the same function as in training mode with the same parameters (apart from the documented batch-statistics and dropout differences). Evaluation-mode filters are never stale, repeated evaluation is deterministic and leaves all state unchanged, and gradients of the training-mode output match numerical derivatives.",
 ["histories", "inputs"], "all interleavings of optimiser steps, mode switches, save/load/copy, forward passes",
 "Filters are cached at mode switches; only particular histories expose a stale or lost cache.",
 ["e2cnn/nn/modules/r2_conv/r2convolution.py", "e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py", "e2cnn/nn/modules/r2_conv/r2diffop.py", "e2cnn/nn/modules/sequential_module.py", "e2cnn/nn/modules/batchnormalization"],
 [("filter caching", "train(mode) of convolution layers"), ("expanded bias buffer", "expanded_bias"), ("running statistics", "batch normalisation modules")],
 state="cached filter and bias buffers, running statistics")

prop("P13", "Exported networks compute the same function as the original",
 "Exporting any module or composition that supports export gives a pure PyTorch module which, for every input, returns the values the original returns in evaluation mode, with the same shape. Exporting leaves the original's function and parameters unchanged, and later changes to the original's parameters in training do not alter an already exported network.",
 ["configurations", "inputs", "histories"], "all exportable modules and compositions with all options, after any training history",
 "Tests export default configurations; options such as ceil mode, output padding, target size or padding modes are easily dropped.",
 ["e2cnn/nn/modules"],
 [("export", "EquivariantModule.export and every override"), ("batch-norm export", "InnerBatchNorm.export"), ("pooling export", "PointwiseMaxPool(Antialiased).export")])

prop("P14", "Nonlinearities commute with the group action and apply the stated function",
 "Every nonlinearity (pointwise, norm, induced norm, gated, induced gated, concatenated, vector-field), for every field type it accepts in any order of fields, any parameters and any input, commutes with the action of every group element on the fibers, its output transforming by its declared output type. Its values are those of the stated function applied field by field (each field using one bias or gate of its own), and it never changes its input unless asked to work in place.",
 ["inputs", "configurations"], "all accepted field types (interleaved, repeated, mixed sizes), parameters, inputs, elements",
 "Tests use sorted or small field lists and default parameters; index bookkeeping for non-contiguous fields with distinct biases is not sampled.",
 ["e2cnn/nn/modules/nonlinearities"],
 [("norm", "NormNonLinearity, InducedNormNonLinearity"), ("gated", "GatedNonLinearity1/2, InducedGatedNonLinearity1"), ("pointwise", "PointwiseNonLinearity, ReLU, ELU"), ("concatenated", "ConcatenatedNonLinearity"), ("vector field", "VectorFieldNonLinearity")])

prop("P15", "Batch normalisation and dropout respect fields, statistics and symmetry",
 "Every batch-normalisation module, for any accepted field type, parameters and history of batches, commutes with the group action in training and evaluation, tracks running statistics as the documented moving average of per-field (per-irrep) batch statistics, and in evaluation scales and shifts each field accordingly. Field dropout zeroes whole fields or rescales them by 1/(1-p), pointwise dropout does so per entry, with the stated probability, both are the identity in evaluation, and resetting restores the initial state.",
 ["histories", "inputs", "configurations"], "all accepted field types, parameter values, batch sequences, mode switches, elements",
 "Tests use one batch and default parameters; field-wise bookkeeping and the moving average show only with interleaved fields and several batches.",
 ["e2cnn/nn/modules/batchnormalization", "e2cnn/nn/modules/dropout"],
 [("inner batch norm", "InnerBatchNorm"), ("norm batch norm", "NormBatchNorm, InducedNormBatchNorm"), ("general batch norm", "GNormBatchNorm"), ("dropout", "FieldDropout, PointwiseDropout")],
 state="running means and variances, batch counter")

prop("P16", "Pooling, invariant maps, upsampling and masking respect the symmetry",
 "Spatial pooling (maximum, average, antialiased, adaptive, norm-based), upsampling and masking compute the stated per-field operation for every configuration and input and commute with every group element that maps both grids to themselves. Maps to invariant features (maximum over a field, norm, induced norm) return one invariant value per field, unchanged when the fibers are transformed.",
 ["inputs", "configurations"], "all accepted field types, window, stride, padding, ceil and size options, inputs, elements",
 "Tests use a few sizes with tolerances hiding border effects; options combine into many shapes.",
 ["e2cnn/nn/modules/pooling", "e2cnn/nn/modules/invariantmaps", "e2cnn/nn/modules/r2upsampling.py", "e2cnn/nn/modules/masking_module.py"],
 [("pointwise pooling", "PointwiseMaxPool, PointwiseAvgPool, antialiased and adaptive variants"), ("norm pooling", "NormMaxPool"), ("invariant maps", "GroupPooling, NormPool, InducedNormPool"), ("upsampling, mask", "R2Upsampling, MaskModule")])

prop("P17", "Structural modules equal the plain composition of their parts",
 "Sequencing, branching by labels (with every reshuffle level), merging, multi-branch modules, reshuffling, restriction, disentangling, identity and module lists deliver every field, unchanged and exactly once, to and from the submodules they should, for every order of fields and labels; their declared input and output types describe the data. The result equals manually composing the submodules on the corresponding fields, and building one of these modules does not modify its arguments.",
 ["configurations", "inputs"], "all field types, labellings, permutations, reshuffle levels, nested compositions",
 "Tests use a few labellings; bookkeeping errors need interleaved labels with fields of different sizes.",
 ["e2cnn/nn/modules/sequential_module.py", "e2cnn/nn/modules/branching_module.py", "e2cnn/nn/modules/merge_module.py", "e2cnn/nn/modules/multiple_module.py", "e2cnn/nn/modules/reshuffle_module.py", "e2cnn/nn/modules/restriction_module.py", "e2cnn/nn/modules/disentangle_module.py", "e2cnn/nn/modules/module_list.py", "e2cnn/nn/modules/utils.py"],
 [("splitting", "BranchingModule, ReshuffleModule"), ("joining", "MergeModule, MultipleModule"), ("typing", "RestrictionModule, DisentangleModule, SequentialModule")])

prop("P18", "Predicted output shapes are the actual output shapes",
 "For every module, every valid configuration and every valid input shape, the output shape predicted without running the module is exactly the shape of the tensor it produces (as integers), and the produced tensor has the declared output field type. The same holds for compositions of modules.",
 ["configurations", "inputs"], "all modules, options and input sizes, including rectangular inputs and configurations where rounding matters",
 "Rounding, ceil-mode and option handling only matter for particular size/stride/padding combinations.",
 ["e2cnn/nn/modules"],
 [("shape prediction", "evaluate_output_shape of every module")])

prop("P19", "Ill-typed operations are rejected and equality means equal behaviour",
 "Modules reject inputs whose field type differs from their input type, and tensor or type operations reject operands of different field types, symmetry spaces or groups, mismatched channel counts and unsupported representations, instead of computing a wrong result. Two groups, spaces, representations or field types compare equal only if they act identically, equal ones have equal hashes, and ones built from the same arguments compare equal.",
 ["inputs", "configurations"], "all pairs of groups, spaces (including reflection axes), representations and field types; all modules and operators",
 "Tests construct matching operands; the accept/reject boundary is over all pairs.",
 ["e2cnn/nn/geometric_tensor.py", "e2cnn/nn/field_type.py", "e2cnn/gspaces", "e2cnn/group/representation.py", "e2cnn/nn/modules"],
 [("input checks", "forward() assertions"), ("equality", "__eq__ / __hash__ of Group, GSpace, Representation, FieldType"), ("constructor checks", "module and FieldType constructors")])

prop("P20", "Networks composed of library layers are equivariant end to end",
 "Any well-typed network assembled from the library's layers (convolutions, nonlinearities, normalisation, pooling, restriction, branching, invariant maps), with any parameters and after any training steps, commutes with every group element that maps its pixel grids to themselves; its output transforms by its declared output type. Networks ending in invariant features return the same features for all transformed copies of an input.",
 ["programs", "inputs", "configurations"], "all layer sequences, field types, parameters, inputs, elements",
 "The composition space of layers and types is unbounded; tests check single layers with default parameters.",
 ["e2cnn/nn/modules", "e2cnn/nn/field_type.py", "e2cnn/gspaces"],
 [("composition", "SequentialModule and all layers")])

prop("P21", "Weight initialisation scales and parameter descriptions are correct",
 "Generalised He initialisation draws each weight independently with the scale given by its number of basis elements and input irrep types for its output irrep, the same with and without caching; delta-orthogonal initialisation gives, for odd filter sizes and the default rings, a filter that vanishes away from its centre and whose centre preserves (or co-preserves) norms irrep by irrep. The per-weight descriptions of a layer (names, indices, fields, irreps, radii, frequencies) are unique, mutually consistent and describe where and how each weight acts in the filter.",
 ["inputs", "configurations"], "all layer configurations, random draws and weights",
 "Tests check variance statistics of a few layers only.",
 ["e2cnn/nn/init.py", "e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py", "e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py"],
 [("He initialisation", "generalized_he_init"), ("delta-orthogonal", "deltaorthonormal_init"), ("parameter description", "get_basis_info, get_basis_names, get_element_info")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
