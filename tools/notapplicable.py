PURE = "a pure function of its input: no schedule, clock, fault, heap behaviour or interleaving takes part, so deterministic simulation has nothing to decide here"
REASONS = {"N01": PURE, "N03": PURE, "N04": PURE, "N05": "a compile-time statement about types: " + PURE}
