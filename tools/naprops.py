NAP = [
("N01", "The vault always covers all unclaimed rewards", "At every moment the tokens in a pool's vault are at least the sum of all minings' unclaimed rewards and the undistributed budget.", ["histories"], "every history of operations over any number of minings", [RP, MN], [("budget", RP)],
 "Quantifies over unbounded histories and the sum over all minings; a static argument would need an inductive invariant over data the program never sees together. The per-operation clauses it rests on (C01-C07, C13, C17) are claimed instead."),
("N02", "The ordered record store is a correct balanced tree", "Inserting, removing and looking up dated records behaves as an ordered map for every sequence of operations.", ["histories"], "every sequence of tree operations", [P + "state/mod.rs"], [("third-party red-black tree", "sokoban crate")],
 "The tree is third-party code outside the repository and its shape invariants are runtime heap facts; it is assumed to be an ordered map."),
("N03", "Operations fit the compute and heap limits", "Every operation on every reachable state completes within the chain's compute and heap limits.", ["inputs", "configurations"], "every reachable state", [MN, RP], [("bounded walks", MN)],
 "Compute units and heap use are runtime quantities of the deployed bytecode; no static bound on the host toolchain's MIR transfers to them."),
("N04", "Rounding never loses more than the documented dust", "Over any history, the rewards lost to rounding stay below one token unit per settlement.", ["histories"], "every history", [MN, RP], [("fixed precision", P + "state/mod.rs: PRECISION")],
 "A numeric error bound over unbounded histories of runtime values; the exact rounding of each single step is claimed in C13 and C17."),
("N05", "Every accrued reward can eventually be claimed", "An owner who keeps calling claim eventually receives everything accrued, under any interleaving with other users.", ["histories", "schedules"], "every interleaving of users' transactions", [I + "claim.rs"], [("claim", I + "claim.rs")],
 "A liveness property over schedules and the token program's behaviour; nothing in the shape of the code decides it. L01 claims the static part: no undocumented refusal."),
]
