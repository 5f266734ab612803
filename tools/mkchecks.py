import json,subprocess
HC=[x.split()[0] for x in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if 'Verification hook' in x]
p='/verif/tools/checks.json'; d=json.load(open(p))
T="TLA+ specification model-checked with TLC; "
tr=T+"recorded histories of the real code validated against it by TLC trace checking"
law=T+"exact weighted outcome distributions of the real code, over every draw sequence of a grid, compared by TLC with the specified law"
N={
"C02":(tr,"Design exhaustive for small tables (MCCuckoo); implementation bound by trace validation of random and exhaustive histories over bucket sizes, entry widths and hash choices. Preconditions: bucket_count a power of two, fingerprint never the empty value."),
"C03":(tr,"As C02, with the stored table decoded through lookups of every element after each operation."),
"C04":(tr,"As C02; a failed add loses exactly one copy, adds succeed when room is reachable; termination bounded by a CPU limit per operation."),
"C05":(tr,"Random histories plus every sequence of edge draws (0, 1, grid and one-ulp values) on small instances."),
"C06":(law,"Exact for the law up to n and k of MCReservoirLaw; the implementation is enumerated on midpoint grids (exact weights), so the claim is exact for the grid sizes and histories enumerated."),
"C07":(tr+"; "+"exact histograms over draw grids for the replacement law","Both the observable transitions and the exact law on grids."),
"C08":(law,"Slot, element and successor distributions, exact on grids; larger n than the grid only through the inductive step law."),
"C09":(tr,"The chain is observed after each operation by applying obsolete to copies of the object. Timestamps at least 1 and strictly increasing."),
"C10":(tr,"Interpolation recomputed in exact IEEE double arithmetic (java/Dbl) with tolerance 1e-9; integer, real and degenerate instances. Values inside [min,max], increasing timestamps."),
"C11":(tr,"As C10; feasibility of a segment decided by the specification, ties within 1e-9 accepted either way."),
"C12":(tr,"Beliefs over the possible cluster sets (ties); predictions probed around the frontiers after each operation; events after more than 40 tied beliefs are not judged and are counted in the evidence."),
"C13":(tr,"As C12, judging count_clusters and the result of train."),
"C14":(tr,"Tree shape read through a guarded read-only hook; predictions and scores of probe points judged after every point."),
"C15":(tr,"As C14; gains and the Hoeffding bound recomputed in doubles by the specification, decisions within 1e-9 of the bound accepted either way; buffer exhaustion covered with small buffers."),
}
N.update({
"C16":(tr,"MCNaiveBayes shows the incremental estimate equal to the batch one in exact rationals for every history up to 5 points; the scores of the implementation are compared with the batch estimate over the recorded points. Scores up to 1e-5 (the code rounds sqrt(2 pi)); positive weights; log densities below -690 may underflow."),
"C17":(tr,"Outputs recomputed by the specification in doubles for 10 layer shapes and 4 activations; layout proven a bijection on small shapes; weights compared bit for bit after every call."),
"C18":(tr,"The gradient of the specification is checked against automatic differentiation in exact rationals (MCPerceptron) and the implementation's step against the specification's for 10 layer shapes and 4 activations."),
"C26":(tr,"Counts and scores over all interleavings of small histories in the model; random histories over three instances of 7 instantiations validated. Scores whose definition divides by zero are not judged."),
"C27":(tr,"As C26 for the shared arrival counter."),
"C28":(tr+"; exact permutation histograms","Every small distribution with draws at and between the thresholds; shuffle over all draw sequences of a grid up to 5 (6) elements."),
})
N.update({
"C19":(tr,"MCMondrian: all forests up to 4 (5) points on small grids; the recorded trees (read-only hook) are judged after every operation, including copies of the forest. rand_uniform in [0,1[, lifetime positive."),
"C20":(tr,"As C19 with pools from 1 node up, filled and overfilled; ids, links, free count and per-tree room recomputed at every step."),
"C21":(law,"Trainings with a constant draw are predicted by the specification within 1e-9 (1e-5 for float features), trainings with random draws must be possible ones, and the distribution of one training over every draw sequence of a grid is compared with the law at each level of the path (1.5/grid), with independence of time, feature, value and trees. Both forests."),
"C22":(tr,"Scores recomputed in doubles from the observed trees for points inside and outside of the boxes, both forests. The posterior is the one of the code (discount exp(+), see DESIGN.md), not the one of the paper."),
"C23":(tr,"As C19 for MondrianForestUnbound, plus the counters of the inner nodes and counted allocations. Copying this forest is excluded (it shares its nodes)."),
})
EXC=" Excluded: the private and unused tree_add/tree_delete, printing, and the Otter/Scory experiments (see DESIGN.md)."
N.update({
"C24":(tr,"MCCoarse: all forests up to 4-5 points on small grids for every strategy, management and trimming rule; recorded trees (read-only hook) judged after every operation, also with UNBOUND_OPTIMIZE (for EXTEND_NONE and EXTEND_ORIGINAL)."+EXC),
"C25":(law,"As C24 with the free count, the capacity, the limits and every trimmed leaf judged; exact distribution of TRIM_RANDOM over all draws of a grid; histories of more than 100 points so that the automatic trimming happens."+EXC),
"C29":(law,"Every training must be one of the specified steps; with constant draws the split is determined within 1e-9 (1e-5 for float features); exact distribution of one training over all draws of a grid."+EXC),
"C31":(tr,"MCCoarse12 and 13: all forests up to 4 points with splits of leaves; recorded histories of 70-90 points with trimming, judged by the step relation, the structure, the pool and the predictions at once."+EXC),
"C32":(tr,"Recorded histories of 50-70 points with trimming for the three triggers and the four distributions, judged by the step relation (forced extends included), the structure, the pool and the predictions at once; with constant draws the cut is determined within 1e-9. MCCoarse14 to 16: all forests up to 3-6 points with every possible halving and sharing out of points."+EXC),
"C30":(tr,"Scores recomputed in doubles from the observed trees for points inside and outside of the boxes, for all trees and for the first ones only. The posterior is the one of the code (see C22)."+EXC),
})
for k,(t,n) in N.items(): d["checks"][k]={"technique":t,"note":n}
d["hooks"]={"guard":"ORPAILLECC_VERIF","enable":"the drivers of /verif/harness are compiled with -DORPAILLECC_VERIF (lib/vk.py build(hook=True)); the hooks only add read-only visitors","source_commits":HC}
json.dump(d,open(p,'w'),indent=1)
