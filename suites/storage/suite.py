CRATES = [{"dir": "storage"}]


def DEPS(mode):
    return ""


ASSUMPTIONS = [
    "hash maps are association lists and locks are single-threaded cells in the encoding (shims/kstd); other threads are represented by an observer that runs at every lock acquisition",
    "sampled paths and counterexamples are replayed on the unmodified crate with the real std types",
    "the RocksDB backend needs a C++ library that is not available offline and is not encoded",
]
