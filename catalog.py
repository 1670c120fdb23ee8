#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run `python3 catalog.py` after editing."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
def prop(id, title, statement, over, text, why, files, mech, observe=None, note=None, tech=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    P.append((d, tech, note))
DEV = "deterministic simulation: seeded search over simulated-device schedules and faults, oracle = extended-precision reference"
DEVNOTE = "Sampled: every seed drives the real code through generated inputs, reused storage and a seeded preemptive schedule of the parallel work items, compared with an independent reference and a checking heap. Trusts the reference model and the sequentially consistent device simulator."
T1 = "The unit tests compare a few hand-made inputs on the serial back end, where work items always run one after the other in index order."

prop("P01", "Vector and workset algebra is exact for every shape and schedule",
 "Every vector, cell-workset and batched-matrix operation (dot, norm, sum, min, max, fill, copy, scale, axpy, update, extract, strided and selected-component variants, batched multiply, inverse and identity) returns the mathematically defined result for every length, component count and offset, whatever order the parallel work items run in. It writes exactly the entries it names, leaves every other entry and every input unchanged, and refuses mismatched or empty arguments instead of computing with them.",
 ["schedules", "inputs", "histories"], "for every size, component count, offset, coefficient, reuse of output storage, and every interleaving of the parallel work items", T1,
 ["src/BLAS1.hpp", "src/BLAS2.hpp", "src/BLAS3.hpp"], [("parallel loops and reductions over entries", "src/BLAS1.hpp"), ("per-cell loops", "src/BLAS2.hpp"), ("per-cell batched LU and multiply", "src/BLAS3.hpp")])
prop("P02", "Sparse-matrix operations equal their dense definitions",
 "For every block sparse matrix, the matrix-vector product, row summing, block expansion and condensation, sorting of row entries, row-summed (lumped) inverse products, matrix-matrix difference and product, transpose and sub-block extraction give exactly the entries of the corresponding dense operation, whatever the block sizes, sparsity pattern, offsets and order in which rows are processed. Results are independent of previous content of the output beyond what the operation documents, and incompatible shapes are refused.",
 ["schedules", "inputs"], "for every block size, sparsity pattern (empty rows included), value and every interleaving of row work items", T1,
 ["src/PlatoMathHelpers.hpp", "src/PlatoMathFunctors.hpp", "src/Plato_Solve.hpp", "src/alg/CrsMatrix.hpp"], [("row loops over a block-compressed graph", "src/PlatoMathHelpers.hpp"), ("lumped inverse and diagonal operators", "src/PlatoMathFunctors.hpp"), ("row-summed solve", "src/Plato_Solve.hpp")])
prop("P03", "Prescribed values are imposed exactly on the linear system",
 "After constraints are applied, every constrained row and column of the system is that of the identity, the right-hand side holds the (scaled) prescribed value on constrained unknowns and has the columns' contribution removed once on every other unknown, and all other entries are untouched. This holds for every list of constrained unknowns, including lists that name the same unknown more than once, and for every order in which constraints are processed concurrently.",
 ["schedules", "inputs"], "for every sparse system (symmetric in structure, symmetric or not in value), constraint list, scale factor and every interleaving of the concurrent row and right-hand-side updates", T1 + " Lost updates between concurrent constraints cannot show on the serial back end.",
 ["src/ApplyConstraints.hpp"], [("atomic right-hand-side update, symmetric zeroing of rows and columns", "src/ApplyConstraints.hpp")])
prop("P04", "Strains, gradients, flux and residual divergences follow their definitions",
 "For every cell, state and gradient, the strain, temperature/potential/pressure gradient and their complex counterparts equal the symmetric gradients of the nodal fields, and the divergence operators assemble exactly the weighted contraction of stress, flux or pressure with the shape gradients into the degrees of freedom they own. Outputs do not depend on what the storage held before, beyond documented accumulation, nor on the order in which cells are processed.",
 ["schedules", "inputs", "histories"], "for every spatial dimension, cell geometry, field, dof layout, storage history and every interleaving of cells", T1,
 ["src/Kinematics.hpp", "src/EMKinematics.hpp", "src/TMKinematics.hpp", "src/ComplexStrain.hpp", "src/ComplexStressDivergence.hpp", "src/StressDivergence.hpp", "src/StrainDivergence.hpp", "src/FluxDivergence.hpp", "src/PressureDivergence.hpp", "src/PressureGradient.hpp"], [("per-cell operators", "src/Kinematics.hpp, src/*Divergence.hpp")])
prop("P05", "Field transfer, inertia, damping, weighting and integration are conservative",
 "Interpolation to integration points, projection to nodes, inertial and damping forces, dynamic residuals, frequency-response misfit, complex energies, pressure stabilization, penalty and density weighting and cubature/basis evaluation equal their defining sums for every cell, field and material parameter. Basis functions form a partition of unity, cubature integrates polynomials of its degree exactly, contributions are accumulated once per node and work item, and the result does not depend on scheduling or on stale storage.",
 ["schedules", "inputs", "histories"], "for every dimension, dof layout, cubature degree, field, parameter, storage history and every interleaving of cells", T1,
 ["src/ProjectToNode.hpp", "src/InertialForces.hpp", "src/StateValues.hpp", "src/InterpolateFromNodal.hpp", "src/ComplexRayleighDamping.hpp", "src/AdjointComplexRayleighDamping.hpp", "src/RayleighDamping.hpp", "src/StructuralDynamicsCellResidual.hpp", "src/ComputeFrequencyResponseMisfit.hpp", "src/ComplexElasticEnergy.hpp", "src/ComplexInertialEnergy.hpp", "src/ComputeStabilization.hpp", "src/DotProduct.hpp", "src/Plato_TopOptFunctors.hpp", "src/ApplyWeighting.hpp", "src/ApplyPenalty.hpp", "src/ApplyProjection.hpp", "src/Simp.hpp", "src/Ramp.hpp", "src/Heaviside.hpp", "src/LinearTetCubRuleDegreeOne.hpp", "src/alg/Basis.cpp", "src/alg/Cubature.cpp"], [("per-cell transfer operators", "src/*.hpp"), ("reference-element basis and cubature tables", "src/alg/Basis.cpp, src/alg/Cubature.cpp")])
prop("P06", "Plastic and constitutive updates follow the flow rule over load histories",
 "Over every history of load increments, each cell's elastic strain, stress, flow direction, accumulated plastic strain, backstress and local residuals equal those of the return-mapping flow rule applied to that cell's own history, with elastic cells unchanged by plastic neighbours. The stress, deviator, elastic work, yield stress, principal values, tensile energy and isotropic moduli operators equal their tensor definitions for every strain state, whatever the scheduling and storage reuse.",
 ["schedules", "inputs", "histories"], "for every sequence of elastic and plastic increments, material, strain state, dimension and every interleaving of cells", T1 + " No test carries state through more than one increment.",
 ["src/J2PlasticityUtilities.hpp", "src/ThermoPlasticityUtilities.hpp", "src/ComputeCauchyStress.hpp", "src/ComputeDeviatoricStrain.hpp", "src/ComputeDeviatoricStress.hpp", "src/ComputeElasticWork.hpp", "src/VonMisesYieldFunction.hpp", "src/Eigenvalues.hpp", "src/TensileEnergyDensity.hpp", "src/TensileEnergyDensity.cpp", "src/IsotropicMaterialUtilities.hpp"], [("flow-rule residuals and state updates", "src/J2PlasticityUtilities.hpp"), ("elastic strain with thermal part", "src/ThermoPlasticityUtilities.hpp")])
IO = "deterministic simulation: seeded search over simulated-disk faults and histories, oracle = reference reading"
prop("P08", "A custom material constant is the requested equation's value or an error",
 "A material constant taken from an equation table file is the value of exactly the requested row of that table, or an error is raised; a missing file, missing header, missing, empty, malformed or out-of-range row, or a read that fails part-way never yields a number from another, truncated or absent row. Short and interrupted reads that lose no data do not change the value, an equation given directly in the input takes precedence over the file, and once faults stop the same request succeeds.",
 ["fault_sequences", "inputs", "configurations"], "for every table file content, requested index, torn file and every sequence of open failures, read errors, short or interrupted reads and allocation failures", "The unit tests read one intact file from a healthy disk.",
 ["src/CustomMaterial.cpp", "src/CustomMaterial.hpp"], [("header search and row count over a line stream", "src/CustomMaterial.cpp")], tech=IO,
 note="Sampled: real parsing and file-stream code over an in-memory disk with injected faults; outcomes compared with a reference reading of the same bytes.")
prop("P09", "An expression evaluates to its value or is refused, whatever came before",
 "Over any history of accepted, refused and interrupted parses on one evaluator, an accepted expression evaluates to its mathematical value under the documented operator precedence, functions and variables, every time it is evaluated. Malformed text (unbalanced delimiters, missing operands or operators, unknown characters, incomplete functions) and undefined variables raise an error, and neither errors nor failed memory allocation leak memory or affect later expressions.",
 ["histories", "inputs", "fault_sequences"], "for every expression over the language, every malformed variant, every history on one evaluator and every failing allocation", "The unit tests parse some forty fixed strings on a fresh evaluator with no allocation failure.",
 ["src/ExpressionEvaluator.cpp", "src/ExpressionEvaluator.hpp", "src/PlatoMathExpr.hpp"], [("precedence-climbing tree construction", "src/ExpressionEvaluator.cpp parse_expression/insert_node_item"), ("tree ownership", "src/ExpressionEvaluator.cpp delete_expression")],
 tech="deterministic simulation: seeded histories with allocation-failure injection, oracle = generated expression tree",
 note="Sampled histories with injected allocation failures against the value of the generating tree, with heap conservation.")
exec(open(f"{V}/catalog2.py").read()) if os.path.exists(f"{V}/catalog2.py") else None

def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for d, _, _ in P: f.write(json.dumps(d) + "\n")
    na = {n for n, _ in NA}
    m = dict(version=1, setup_cmd="python3 tools/setup.py",
      hooks=dict(guard="none: no hooks were added to the code under test", enable="the checks compile /repo's sources with compiler instrumentation and replacement headers kept in /verif; nothing in /repo is guarded", source_commits=[]),
      checks=[dict(property=d["id"], quick_cmd=f"python3 run.py {d['id']} --tier quick", thorough_cmd=f"python3 run.py {d['id']} --tier thorough", technique=t or DEV, level="exploration", level_note=n or DEVNOTE) for d, t, n in P if d["id"] not in na],
      not_applicable=[dict(property=a, reason=b) for a, b in NA],
      notes="Every check rebuilds its harness from /repo's working tree, searches seeds from VERIF_SEED, and reports a violation only after an exact replay. replays/<id>.replay is replayed with: python3 run.py <id> --replay replays/<id>.replay")
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
main()
