CHECKS = {
    **{p: ("checks_native", p.lower()) for p in ("F01", "F02", "F03", "D01", "S03", "S04", "C02", "C03")},
    **{p: ("checks_python", p.lower()) for p in ("G06", "G07", "S02", "C01")},
    **{p: ("checks_python2", p.lower()) for p in ("G09", "E01", "H01")},
    **{p: ("checks_python3", p.lower()) for p in ("G08", "L01")},
    **{p: ("checks_python4", p.lower()) for p in ("M01", "M02")},
    **{p: ("checks_python5", p.lower()) for p in ("T01",)},
    **{p: ("checks_python6", p.lower()) for p in ("K01",)},
    **{p: ("checks_python7", p.lower()) for p in ("A01",)},
    "S01": ("checks_bounds", "s01"),
    "G01": ("checks_adjoint", "g01"),
    "G02": ("checks_adjoint", "g02"),
    "G03": ("checks_adjoint", "g03"),
    "G04": ("checks_adjoint", "g04"),
    "G05": ("checks_adjoint", "g05"),
}
_ADJ = ("abstract interpretation of the clang AST in a value-numbering domain; adjoint equation decided on the summarised write logs",
        "Sound for the modelled C++ subset in exact arithmetic, up to random-interpretation collisions (31-bit field, 24 lanes); "
        "rounding, overflow and exact depth ties are outside; the interpreter and the loop summaries are trusted.")
TECH = {
    "G01": _ADJ, "G02": _ADJ, "G03": _ADJ,
    "G04": ("write-log and may-alias analysis of the clang AST (value-numbering abstract interpretation)", _ADJ[1]),
    "G05": ("abstract interpretation of forward and backward sweeps; equality of path conditions, indices, restored values and sweep order", _ADJ[1]),
}
for _p, _t in (("S01", "array-bounds analysis: subscripts of the abstract runs, demand-driven linear inequality propagation (ABCD style) with case splits on gated joins"),
              ("F01", "abstract interpretation of the clang AST; stored values compared with an independently written rendering model in the value-numbering domain"),
              ("F02", "write-log analysis of the depth and colour buffers (value-numbering abstract interpretation of the clang AST)"),
              ("F03", "abstract interpretation of the clang AST; blend stores compared with an independently written blending model"),
              ("D01", "definite-assignment and uninitialised-read analysis over the write logs of the abstract runs"),
              ("S03", "typestate analysis of heap objects along the abstract runs; query over the Cython syntax tree for exception specifications"),
              ("S04", "reachability of the normal exit of the native backward pass under each mode"),
              ("C02", "relational value-numbering analysis: write logs of both conventions compared after a half-pixel substitution"),
              ("C03", "write-log analysis of the silhouette sweep: edge numbering and orientation")):
    TECH[_p] = (_t, _ADJ[1])
_PY = ("Sound for the modelled subset of Python, numpy and scipy.sparse in exact arithmetic, up to random-interpretation collisions; the library models and "
       "the interpreter are trusted, the compiled renderer is an uninterpreted function of its inputs; rounding is outside.")
for _p, _t in (("G06", "abstract interpretation of the Python sources in a value-numbering domain of indexed arrays; adjoint equation on the result terms"),
               ("G07", "abstract interpretation of the Python and Cython sources with the native renderer uninterpreted; adjoint equation on the result terms"),
               ("C01", "abstract interpretation of the Python and Cython sources; fields of the native scene compared with the settings and mesh attributes they stand for"),
               ("G09", "abstract interpretation of the Python and Cython sources with the native renderer uninterpreted; derivative of the returned error against the upstream gradient handed over"),
               ("E01", "effect (mod-set) analysis with alias tracking over abstract runs of the Python and Cython entry points and of the native passes"),
              ("H01", "relational abstract interpretation: call histories against fresh objects, compared on result terms"),
              ("M01", "relational abstract interpretation (query histories against a new mesh); cache-invalidation lint on the syntax tree of every mesh class"),
              ("T01", "relational abstract interpretation of the torch bindings against the numpy classes and of interleaved forward and backward calls; graph-cut analysis"),
              ("K01", "abstract interpretation of the cameras on symbolic points and matrices (rotations parametrised by a quaternion), compared with an independent camera model"),
              ("A01", "abstract interpretation of the adjacency construction with sparse matrices expanded to sums of index equalities, compared with definitions written from the faces"),
              ("M02", "abstract interpretation of subdivision and conversion; index terms of the result resolved to corners and edges of the source"),
              ("G08", "abstract interpretation of one fitting step with the native renderer uninterpreted; derivative of the returned energy against the state update"),
              ("L01", "relational abstract interpretation (reset fitter against new fitter); carried-field effect analysis on the syntax tree of every fitter class"),
              ("S02", "abstract interpretation of the Python and Cython entry points; entailment of the native size assumptions by the checks on every path; query over the Cython syntax tree")):
    TECH[_p] = (_t, _PY)
NA = {
    "N01": "convergence of an optimisation is a numerical fact about runtime data; no static argument over the source bounds it",
    "N02": "watertightness of shared edges depends on floating-point rounding of runtime vertex positions, which no sound static argument here can bound",
    "N03": "equality with OpenGL output depends on the GPU driver's rasteriser, which is not in the repository",
}
