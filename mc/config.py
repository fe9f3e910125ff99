"""Per-property settings of the explorers."""
LIMIT = dict(quick=540, thorough=3000)
SHARDS = {}
ENV = {"C06": {"NUMBA_NUM_THREADS": "8"}}
RULE = {}
ASSUME = {
    "*": [
        "floating point results are compared within stated tolerances (about 1e-8 relative)",
        "nothing is claimed outside the enumerated alphabets and bounds",
    ]
}
