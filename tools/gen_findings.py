import subprocess
prop = {
"keep insertion order":"P09 vectorized errors came out grouped by schema, not in insertion order",
"restore every updated variable":"P08 a non-permanent Objective.error left variables changed",
"adding a cost function twice":"P07 adding the same cost function object twice corrupted the objective",
"batched dt with a single Qc_inv":"P14 GP weights with batched dt and one Qc_inv raised",
"default URDF joint axis":"P23 joints without an axis element failed instead of using the URDF default",
"UrdfRobotModel without link_names":"P23 link_names=None raised",
"axis-aligned joint classes":"P23 axis-aligned joints had the wrong axis or motion",
"logarithm of batches with non-contiguous":"P05 log raised for non-contiguous batches of rank >= 2",
"dense solvers with check_singular":"P17 check_singular lost float64 / failed with batched damping",
"cholmod solver":"P17 the sparse solver solved float64 systems in float32",
"SparseLinearization.diagonal_scaling":"P16 diagonal_scaling changed dtype",
"singleton batches in dense and loop_batch":"P13 dense and loop_batch failed for singleton operands",
"copies keep their autograd options":"P13 copies lost autograd options",
"check contexts when the body raises":"P28 check contexts were not restored after an exception",
"temporary autodiff variables":"P28 temporary variables were not restored when the error function raised",
"SE2 exponential map jacobian":"P03 SE2 exponential Jacobian inaccurate for small angles",
"LieGroupTensor.add_ outside":"P04 LieGroupTensor.add_ recursed forever",
"two diagonal entries tie":"P02 logarithm and quaternion wrong near pi when diagonal entries tie",
"SE2 logarithm of rotations":"P02 SE2 logarithm wrong near and at pi",
"j-operators of unary ops":"P05 j-operators of unary functions raised AttributeError",
"SE3 untransform backward":"P05 untransform backward returned a wrongly shaped point gradient",
"LieTensor product composes":"P05 LieTensor product composed in reverse order",
"SO3 normalize gradient":"P05 normalize gradient was NaN for repeated singular values",
"only singleton batch variables":"P08 Objective.error failed when a cost function had only singleton variables",
"per-dimension robust costs":"P15 flatten_dims robust costs failed with a batched radius",
"vectorizing an objective again":"P09 re-vectorizing an objective left stale caches",
"masked jacobians when all the weights":"P14 masked Jacobians failed when all weights of the batch are zero",
"vectorized retraction of singleton":"P29 vectorized retraction of singleton batch variables failed",
"dtype/device and item changes":"P09 to() and item assignment left stale vectorized data",
"RobustCostFunction.to":"P30 RobustCostFunction.to did not convert the wrapped cost function",
"VariableOrdering.remove":"P16 VariableOrdering.remove left stale indices",
"python float damping":"P17 python float damping was rounded to the default dtype",
"mixed singleton and full batches in embodied":"P11 embodied cost functions failed for mixed singleton and full batches",
"default calibration of Reprojection":"P11 default calibration clashed between instances and pinned the batch size",
"share a variable":"P07 copies failed when a cost function and its weight share a variable (dt of the GP models)",
"variables replaced in a RobustCostFunction":"P07 objective copies with robust costs ignored updates of shared variables",
"merged optimizer infos keep":"P19 split backward modes dropped the last history entry before convergence and did not merge best_iter and last_err",
"last_err is the final error":"P19 last_err was not the final error when the optimizer converged",
"report a linear solver failure":"P22 a solver failure in the last iterations of truncated and implicit modes was an AssertionError, not FAIL",
"error and state histories keep":"P19 histories were float32 for float64 problems",
"a rejected step of one batch element":"P20 a rejected batch element was marked converged and frozen when another element's step was accepted",
"steps to a NaN error":"P18 steps to a NaN error were accepted and could be the best ones",
"dogleg steps stay inside":"P18 dogleg steps left small trust regions",
"cholmod failures are RuntimeErrors":"P22 failures of the cholmod solver were not handled like those of the other solvers",
"track the best solution":"P19 tracking the best solution failed for variables with a singleton initial value",
"DCEM failed when a single":"P25 DCEM raised when one sample had all the weight (zero deviation)",
"DCEM doesn't update":"P25 DCEM kept updating converged batch elements",
"GPMotionModel copies":"P11 copies of GPMotionModel were DoubleIntegrator",
}
prop["DLM backward used stale"]="P22 the DLM backward used old data for auxiliary variables omitted from the inputs"
prop.update({
"resolve the batch size when evaluating vectorized":"P09 vectorized evaluation failed before the first Objective.update() or after a direct change of batch size",
"SE3.update_from_rot_and_trans":"P09 SE3.update_from_rot_and_trans left stale vectorized data",
"last row of SE2 and SE3 hat":"P06 hat matrices of SE3 with a translation were rejected, invalid last rows of SE2 and SE3 accepted",
"SE2.rand and SE2.randn":"P06 SE2.rand/randn raised with requires_grad",
"SO2 normalization of zero":"P06 normalising a zero vector gave NaN in float64",
"shape check of SE3 pose":"P06 the shape check of SE3 pose vectors only fired for some wrong shapes",
"were never validated":"P06 invalid data and hat matrices of SO3 and SE3 were accepted although checks are enabled (strict_checks too)",
})
prop.update({
"second derivatives of forward kinematics":"P23 derivatives of the Jacobians of a selection of links were silently wrong",
"forward-mode autodiff Jacobians":"P13 forward-mode dense Jacobians raised for singleton batches",
"ManifoldGaussian updates are validated":"P26 refused updates changed the mean; local/retract_gaussian failed for singleton batches and gave precisions rejected as asymmetric",
"global parameters are validated":"P28 a refused set_global_params changed some parameters, method names were accepted, reset did not restore the flags of torchlie",
"masked_variables restores":"P28 masked_variables left variables masked when its entry failed, and restored tensors older than its entry",
"as_euclidean takes effect":"P28 an as_euclidean object took effect before its scope, and none when used again",
})
prop.update({
"optimizers after a dtype conversion":"P30 every nonlinear least squares optimizer failed once its objective (or layer) had been converted to another dtype",
"DCEM samples in the dtype":"P30 DCEM failed for float32 objectives under a float64 default dtype, and rounded its first deviation to the default dtype",
"cached Local jacobians":"P30 approximate Local Jacobians kept the old dtype after a conversion",
"DLM backward after a dtype":"P30 the DLM backward failed after a dtype conversion",
"compute_samples in the dtype":"P30 compute_samples failed for objectives that do not have the default dtype",
})
prop.update({
"accumulate the Jacobians of a repeated variable":"P16 a cost function with one variable in two slots got only one of the two Jacobians in the dense linearisation, and an invalid pattern in the sparse one",
"new_lietensor keeps nested":"P05 new_lietensor rounded nested lists to the default dtype before converting them to the requested one",
})
EXTRA = {}
log = subprocess.run("git -C /repo log --reverse --format='%h %s'", shell=True, capture_output=True, text=True).stdout.splitlines()
import sys
REVERTED = {l.split(" ",1)[1][8:-1] for l in log if l.split(" ",1)[1].startswith("Revert ")}
lines=[]
for l in log:
    h, s = l.split(" ",1)
    if not s.startswith("fix:") or s in REVERTED: continue
    m=[k for k in prop if k in s]
    if len(m)!=1: print("??", s, m); continue
    p, what = prop[m[0]].split(" ",1)
    lines.append(f"fixed: property={p} {h} {what}")
old=[l.rstrip() for l in open('/verif/KNOWN_FINDINGS.txt')] if len(sys.argv)>1 else []
open('/verif/KNOWN_FINDINGS.txt','w').write("""# finding: property=<id> key=<key> <what fails>   (probed on its exact input every run)
# fixed: property=<id> <commit> <what failed>     (repaired in /repo; suppresses nothing)
finding: property=P10 key=moving-frame-log MovingFrameBetween.jacobians omits the logarithm's Jacobian: SE3 frames with a measurement that differs from the current relative pose get the derivative of the relative pose, not of the error (pinned by tests/theseus_tests/embodied/measurements/test_moving_frame_between.py)
finding: property=P27 key=g2o-2d-edges read_2D_g2o_file raises TypeError on every file with an EDGE_SE2 line (np.array(1, tokens[6:], ...)); theseus/utils/examples/pose_graph/dataset.py
finding: property=P27 key=g2o-blank-line the g2o readers raise IndexError on a blank line (tokens[0]); theseus/utils/examples/pose_graph/dataset.py
finding: property=P27 key=bal-ground-truth BundleAdjustmentDataset.load_from_file with gt_path swaps the ground truth cameras and points; theseus/utils/examples/bundle_adjustment/data.py
finding: property=P27 key=bal-one-camera BundleAdjustmentDataset.generate_synthetic with one camera raises ZeroDivisionError; theseus/utils/examples/bundle_adjustment/data.py
finding: property=P27 key=edge-without-weight PoseGraphDataset with an edge whose (optional) weight is None raises AttributeError in PoseGraphEdge.to; theseus/utils/examples/pose_graph/dataset.py
"""+"\n".join(lines)+"\n")
