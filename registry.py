"""Which harness, sources and build variants decide each property."""
CORE = [r"src/runtime/tensor\.cpp", r"src/initializers\.cpp", r"src/utils/"]
LAYERS = CORE + [r"src/runtime/cpu/layers/", r"src/runtime/cpu/kernels/", r"src/expression/", r"src/model/(parameter|layer_info|layer)\.cpp"]

CHECKS = {
    "C01": dict(harness="c01.cpp", sources=CORE),
    "C02": dict(harness="c02.cpp", sources=CORE),
    "C03": dict(harness="c03.cpp", sources=CORE + [r"src/runtime/cpu/kernels/"]),
    "C04": dict(harness="c04.cpp", sources=CORE),
}

for _i in range(5, 22):
    CHECKS["C%02d" % _i] = dict(harness="c%02d.cpp" % _i, sources=LAYERS)
for _i, _extra in ((18, r"src/loss\.cpp"), (19, r"src/metrics\.cpp"), (20, r"src/optimizer\.cpp"), (21, r"src/optimizer\.cpp")):
    CHECKS["C%02d" % _i]["sources"] = LAYERS + [_extra]
CHECKS["C22"] = dict(harness="c22.cpp", sources=LAYERS + [r"src/dataloader\.cpp"])
CHECKS["C23"] = dict(harness="c23.cpp", sources=CORE + [r"src/io/"])
CHECKS["C24"] = dict(harness="c24.cpp", sources=CORE + [r"src/io/"])

_PBT = "property-based testing: "
TECHNIQUE = {
    "C01": _PBT + "stateful model-based histories of tensors, views and copies against an explicit storage model",
    "C02": _PBT + "generated shapes, views and overlapping copies against a reference model",
    "C03": _PBT + "round trip and index-permutation oracle",
    "C04": _PBT + "generated tensors and parameters; bounds, exact values and statistical oracles",
    "C05": _PBT + "differential against a double-precision reference with rounding bounds",
    "C06": _PBT + "differential against the analytic derivative, accumulation into random prior content",
    "C07": _PBT + "differential against a double-precision reference plus metamorphic shifts",
    "C08": _PBT + "differential against a double-precision reference with rounding bounds",
    "C09": _PBT + "differential against direct convolution in double precision",
    "C10": _PBT + "differential against the adjoint of direct convolution in double precision",
    "C11": _PBT + "differential against direct window maxima and their subgradient",
    "C12": _PBT + "differential against exact sums and means in double precision",
    "C13": _PBT + "train/eval call histories against a reference recurrence with rounding bounds",
    "C14": _PBT + "differential against the analytic derivative in double precision",
    "C15": _PBT + "train/eval call histories, invariants per element and keep-rate statistics",
    "C16": _PBT + "stateful: interleaved call histories compared with fresh layer objects",
    "C17": _PBT + "generated layer configurations against expected shapes, parameters and rejections",
    "C18": _PBT + "call histories against the definition with rounding bounds",
    "C19": _PBT + "generated scores against exact counting",
    "C20": _PBT + "training histories against the recurrence, re-synchronised each step",
    "C21": _PBT + "training histories against the recurrence with rounding bounds",
    "C22": _PBT + "pull histories against a loader model",
    "C23": _PBT + "encode with libpng/libjpeg, decode, compare exactly",
    "C24": "mutation fuzzing of generated images under AddressSanitizer, with leak and descriptor invariants",
    "C25": _PBT + "random layer graphs against graph evaluation in double precision",
    "C26": _PBT + "random layer graphs against reverse-mode differentiation in double precision",
    "C27": _PBT + "random layer graphs against a structural model",
    "C28": _PBT + "save/load round trips of random models",
    "C29": "fault injection: every truncation point and random damage of generated model files under AddressSanitizer",
    "C30": _PBT + "training histories against a reference trajectory",
    "C31": _PBT + "thread-count metamorphic relation and ThreadSanitizer over generated cases",
    "C32": _PBT + "stateful histories of wrong and correct calls on random models, against graph evaluation and an unchanged-state invariant",
    "C33": _PBT + "generated dataset files against the generated contents",
    "C34": _PBT + "random models and names; the written DOT file is parsed and compared with the graph",
    "C35": _PBT + "equivalent re-descriptions (metamorphic) and injected inconsistencies of random model configurations",
    "C37": _PBT + "stateful histories of handles and containers against an explicit model of the shared objects",
    "C38": _PBT + "generated messages and copy/rethrow/thread histories against an output stream, with AddressSanitizer and ThreadSanitizer",
    "C36": _PBT + "stateful histories over several models, handles and common layers against graph evaluation and a bit-for-bit frame condition",
}
NOTE = {k: "random exploration of generated cases; counts, the non-triviality rule and samples are in the evidence file" for k in TECHNIQUE}
CHECKS["C25"] = dict(harness="c25.cpp", sources=None, shim=True)
CHECKS["C26"] = dict(harness="c26.cpp", sources=None, shim=True)
CHECKS["C27"] = dict(harness="c27.cpp", sources=None, shim=True)
CHECKS["C28"] = dict(harness="c28.cpp", sources=None, shim=True)
CHECKS["C29"] = dict(harness="c29.cpp", sources=None, shim=True)
CHECKS["C30"] = dict(harness="c30.cpp", sources=None, shim=True)
CHECKS["C31"] = dict(harness="c31.cpp", sources=LAYERS, variants=["tsan", "asan", "plain"], helpers={"tsan": ["gomp_shim.cpp"]}, optional=["tsan"])
CHECKS["C32"] = dict(harness="c32.cpp", sources=None, shim=True)
CHECKS["C33"] = dict(harness="c33.cpp", sources=None, shim=True, samples=True, helpers={"all": ["sample_iris.cpp", "sample_mnist.cpp", "sample_cifar10.cpp", "sample_cifar100.cpp"]})
CHECKS["C34"] = dict(harness="c34.cpp", sources=None, shim=True)
CHECKS["C35"] = dict(harness="c35.cpp", sources=None, shim=True)
CHECKS["C36"] = dict(harness="c36.cpp", sources=None, shim=True)
CHECKS["C37"] = dict(harness="c37.cpp", sources=LAYERS)
CHECKS["C38"] = dict(harness="c38.cpp", sources=CORE, variants=["tsan", "asan", "plain"], optional=["tsan"])
