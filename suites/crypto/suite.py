SHIMS = ["sha2", "secp256k1", "bech32", "aes", "rand", "ring", "tiny-bip39"]
CRATES = [{"dir": "protected"}, {"dir": "crypto", "shim": SHIMS}]


def DEPS(mode):
    real = mode == "real"
    v = {"sha2": "0.8.1", "secp256k1": "0.28.1", "bech32": "0.7.2", "aes": "0.7.5", "ring": "0.16.11"}
    out = ['hmac = "0.7.1"', 'byteorder = "1.3.4"']
    for k, ver in v.items():
        f = ', features = ["global-context", "recovery"]' if k == "secp256k1" else ""
        out.append(f'{k} = {{ version = "{ver}"{f} }}' if real else f'{k} = {{ path = "$VERIF/shims/{k}"{f} }}')
    out.append('tiny-bip39 = { version = "2.0.0", default-features = false }' if real else 'tiny-bip39 = { path = "$VERIF/shims/tiny-bip39" }')
    return "\n".join(out)


ASSUMPTIONS = [
    "hash functions are ideal: equal inputs give equal outputs, any other input an arbitrary output (shims/sha2); HMAC over it is the real hmac crate",
    "secp256k1 is replaced by the real scalar field with an injective public key map and ideal signatures (shims/secp256k1)",
    "bech32 is replaced by the same 8-to-5 bit regrouping without alphabet and checksum (shims/bech32)",
    "AES is replaced by a keyed block permutation (shims/aes); CBC and PKCS7 are the real block-modes crate",
    "PBKDF2, BIP39 word lists and the random source are replaced by stand-ins (shims/ring, shims/tiny-bip39, shims/rand)",
    "sampled paths and counterexamples are replayed on the unmodified crate with the real primitives",
]
