"""Technique and level note per property (read by make_manifest.py)."""
BASE = ("Generated-input search: no violation among the generated cases counted in the evidence; no proof. Trusts torch's float32/float64 "
        "arithmetic and elementary distributions, and the oracle in pbt/props/%s.py. ")
T = {
 "P01": ("property-based testing: exhaustive summation / exact quadrature of generated small models", ""),
 "P02": ("property-based testing: differential against brute-force marginalisation; metamorphic relations", ""),
 "P03": ("property-based testing: gradient-flow invariant with a probe leaf class on generated models of many sizes", ""),
 "P04": ("property-based testing: differential against a float64 reference of each layer", ""),
 "P05": ("property-based testing: statistical differential of samples against the enumerated model density (two-stage chi-square / KS at 1e-6)", "Statistical tests detect deviations well above the sampling error of the counts reported. "),
 "P06": ("property-based testing: statistical differential of conditional samples against enumerated conditionals (two-stage)", "Statistical tests detect deviations well above the sampling error of the counts reported. "),
 "P07": ("property-based testing: invariants over generated evidence, layouts and query flavours", ""),
 "P08": ("property-based testing: reference greedy descent, dominating completions and zero-temperature limit", ""),
 "P09": ("property-based testing: differential between differentiable and ordinary sampling, gradient invariants", ""),
 "P10": ("property-based testing: metamorphic relations over seeds and temperatures", ""),
 "P11": ("stateful property-based testing: generated call histories against a fresh model", ""),
 "P12": ("stateful property-based testing: cached forwards against a reference cache model", ""),
 "P13": ("property-based testing: differential against float64 Bayes' rule; wrappers against hand-computed losses", ""),
 "P14": ("property-based testing: metamorphic relations over batches, orders, layouts and dtypes", ""),
 "P15": ("property-based testing: round trips through state dicts, copies and pickles", ""),
 "P16": ("property-based testing: accept/reject differential against the stated validity rule; smoke calls of accepted models", ""),
 "P17": ("property-based testing: differential against the stated acceptance rule", ""),
 "P18": ("property-based testing: differential against scipy/closed-form densities in float64", ""),
 "P19": ("property-based testing: statistical differential of leaf samples; modes by maximisation", ""),
 "P20": ("property-based testing: differential against stand-alone leaves feature by feature", ""),
 "P21": ("property-based testing: membership of returned parameters and joint distribution over components", ""),
 "P22": ("property-based testing: invariants of fitted densities, differential against numpy reference, statistical sampling test", ""),
 "P23": ("property-based testing: differential against numpy.histogram_bin_edges", ""),
 "P24": ("property-based testing: exhaustive summation and brute-force marginalisation of generated circuits", ""),
 "P25": ("property-based testing: statistical differential of samples against enumerated densities; evidence invariants", ""),
 "P26": ("property-based testing: differential against a reference router over the component models", ""),
 "P27": ("property-based testing: reference dropout evaluation and invariants", ""),
 "P28": ("property-based testing: autograd against central differences in float64", ""),
 "P29": ("property-based testing: exhaustive pixel levels against integer arithmetic over generated shapes and depths", ""),
 "P30": ("property-based testing: differential against data statistics", ""),
 "P31": ("property-based testing: invariants of splits; model of the sampler's permutation stream", ""),
 "P32": ("property-based testing: differential against analytic softmax gradients and indexing; statistical test of frequencies", ""),
 "P33": ("property-based testing: statistical differential of layer routing against float64 weights (two-stage)", "Statistical tests detect deviations well above the sampling error of the counts reported. "),
 "P34": ("property-based testing: parameter counts against a reference formula; regions recognised by sensitivities; statistical test of assignments", ""),
 "P35": ("property-based testing: per-step gradient differential against a reference loss; end-to-end runs with stand-in data and loggers", "Data loaders and the logger are stand-ins; no accelerator. "),
 "P36": ("property-based testing: generated histories of directory operations against a model of the file tree; stream comparison", ""),
 "P37": ("property-based testing: closed forms, code-length sums over all images, metamorphic invariances of the coefficient", ""),
 "P38": ("property-based testing: differential between precisions, exhaustive enumeration at double tolerance, bit-exact evidence", ""),
 "P39": ("property-based testing: differential with and without autocast under a forward error bound; seeded coupling of draws", "CPU bfloat16 autocast only; errors within the rounding bound are not seen. "),
}
def note(pid):
    return (BASE % pid.lower()) + T[pid][1]
