TRUSTED = [
    "CPython executes the transformed source as the original (xform.py states what the transformation changes)",
    "z3 and cvc5 are sound; the loop rule and the proxies of pyvc are sound (tools/selftest.py; every unit also runs concretely on the untransformed code)",
    "machine floats are treated as reals, Python ints as mathematical integers",
    "datetimes are instants of one time zone (UTC); text is compared for equality only, formatting is injective-agnostic",
    "lemmas about finite sums (congruence, sign, monotonicity) are instantiated, proved by induction on paper",
    "sorted/min/max/filter comprehensions are represented by their library contract",
]
