CRATES = [{"dir": "reputation"}]
ASSUMPTIONS = [
    "hash maps and sets are association lists in the encoding (shims/kstd); every sampled path and counterexample is replayed on the unmodified crate with the real std maps",
]
