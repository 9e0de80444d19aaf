import json
T = " Trusted: pyvc (own VC generator), z3/cvc5, contracts assumed for networkx/PuLP/cspy, floats as reals (DESIGN.md 2)."
B = " Bounded executions of the real code (2-7 customers) run beside the proof, labelled bounded."
N = {
"C01": "Rows, columns and the reading of an integer solution proved for all networks; that a feasible problem is solved at all is only bounded; open finding dive-cover." + T + B,
"C02": "Every column maker and the final report proved; that an integer flow holds one Source-Sink path uses a paper lemma (DESIGN.md 2, lemma 1)." + T + B,
"C03": "Proved for each way a route comes about (LP, cspy, greedy pricing, savings, greedy, initial, preassigned); composition over a solve on paper (lemma 2)." + T + B,
"C04": "Proved for each way a route comes about; composition over a solve on paper (lemma 2)." + T + B,
"C05": "Proved for each way a route comes about; composition over a solve on paper (lemma 2)." + T + B,
"C06": "Proved for LP and cspy pricing and the window adjustments; composition over a solve on paper (lemma 2)." + T + B,
"C07": "LP rows proved to force order, togetherness and load; other makers proved excluded; composition on paper (lemma 2)." + T + B,
"C08": "Proved for LP and cspy pricing by induction along the path; composition on paper (lemma 2)." + T + B,
"C09": "Column costs, fixed costs, objective and reports proved for one solve; open finding resolve-fixed-cost for a second." + T + B,
"C10": "Every report proved equal to the value recomputed along the route, for all routes." + T + B,
"C11": "Fleet rows and the reading of an integer solution proved; open finding dive-cover." + T + B,
"C12": "Each preprocessing step and their order proved to keep every feasible route (triangle inequality towards the depot for windows)." + T + B,
"C13": "Reduced costs, duals, soundness and completeness of the LP rows, and the end of the search proved; assumes the solver's optimality; termination not verified." + T + B,
"C14": "Each check proved to raise exactly on malformed input; their call under each option proved." + T + B,
"C15": "Rows of the scheduling problem and the reading of its solution proved; open finding resolve-periodic-fleet for a second solve." + T + B,
"C16": "Locking, the order of the steps and the merge into the report proved." + T + B,
"C17": "Step and loop invariants of both heuristics proved; paths by lemma 1 (paper)." + T + B,
"C18": "Reset of the search state and use of the current options proved at the point of use; four open findings, identified by input." + T + B,
"C19": "Class invariant proved for every history; choice and clock arbitrary." + T + B,
}
json.dump(N, open("/verif/tools/notes.json", "w"), indent=1)
json.dump(["C03", "C04", "C05", "C06", "C08", "C10", "C12", "C14", "C16", "C17", "C19"], open("/verif/tools/levels.json", "w"))
