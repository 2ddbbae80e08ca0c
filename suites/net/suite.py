SHIMS = ["sha2", "secp256k1", "bech32", "aes", "rand", "ring", "tiny-bip39"]
CRATES = [
    {"dir": "protected"},
    {"dir": "crypto", "shim": SHIMS},
    {"dir": "reputation"},
    {"dir": "storage"},
    {"dir": "partial_struct", "kstd": False},
    {"dir": "util", "standins": True},
    {"dir": "data_structures", "standins": True},
    {"dir": "config", "standins": True},
    {"dir": "p2p", "standins": True, "shim": ["rand"]},
]
DEPS = 'log = "0.4"'


ASSUMPTIONS = [
    "hash functions are ideal: equal inputs give equal outputs, any other input an arbitrary output (shims/sha2)",
    "secp256k1, VRF and BLS are replaced by ideal signatures and proofs (shims/secp256k1, shims/vrf, shims/bls_signatures)",
    "protobuf code is generated from the repository's schemas over a stand-in of the runtime (tools/protogen.py, shims/protobuf); other dependencies that cannot be had offline are replaced as listed in DESIGN.md",
    "hash maps are association lists (shims/kstd)",
]
