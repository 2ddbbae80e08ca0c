"""The properties (source of properties.jsonl) and the ones that are not claimed."""

PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, forall, tests, files, mech, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests, files=files, mech=mech, observe=list(observe)))


P(
    "R01",
    "Total reputation is an exact ledger of unexpired packets",
    "After any history of gains, penalties, expirations and clears, the reputation of every identity is the sum of what it gained in packets that have not expired minus its penalties (taken from the newest packets first), and the reported totals, identity count and exported queue agree with that. An operation that fails leaves the set as it was, packets that would break the expiration order are refused, and a set rebuilt from its exported queue is equal to the original.",
    ["histories", "inputs"],
    "every history of operations within the bounds, every amount and expiration, every choice of identities including repeated ones",
    "unit tests run a few fixed histories; the interplay of repeated identities, equal expirations, partial penalties and failures is a product of histories and values",
    ["reputation/src/trs.rs"],
    [("TotalReputationSet gain/expire/penalize/penalize_many", "reputation/src/trs.rs")],
    ["TotalReputationSet::get", "get_total_sum", "num_identities", "queue"],
)
P(
    "R02",
    "The active set is exactly the identities of the last window of epochs",
    "An identity is active exactly when it took part in one of the last epochs kept by the window, however many times it did, and the number of active identities counts each once. Identities that leave the window are reported exactly when they stop being active.",
    ["histories", "inputs"],
    "every sequence of window updates within the bounds, every set of identities in each update, every capacity",
    "tests push a few fixed vectors; identities recurring across overlapping windows depend on the whole history",
    ["reputation/src/ars.rs"],
    [("ActiveReputationSet push_activity/update and its counters", "reputation/src/ars.rs")],
    ["ActiveReputationSet::contains", "active_identities_number", "buffer_size"],
)
P(
    "M01",
    "Merkle roots agree between all tree builders and with the specified shape",
    "For every list of leaves, the one-shot root, the full tree's root and the progressive tree's root after every push are the same value: leaves combined pairwise in order, left before right, with an odd last node promoted unchanged, and the hash of nothing for no leaves.",
    ["inputs"],
    "every number of leaves within the bounds and every leaf value",
    "tests compare a handful of sizes with fixed leaves; the shape depends on every bit of the size",
    ["crypto/src/merkle.rs"],
    [("merkle_tree_root, FullMerkleTree, ProgressiveMerkleTree", "crypto/src/merkle.rs")],
)
P(
    "M02",
    "Inclusion proofs are complete and exact",
    "For every tree and every leaf there is an inclusion proof, it verifies that leaf against the root, and it verifies no other element and no other root; for an index outside the tree there is none. A proof rebuilt from its exported index and lemma behaves identically.",
    ["inputs"],
    "every number of leaves within the bounds, every index including all out-of-range ones, every leaf, element and root value",
    "tests check proofs of fixed small trees; promoted leaves and large or foreign indexes are combinations they do not reach",
    ["crypto/src/merkle.rs"],
    [("FullMerkleTree::inclusion_proof, InclusionProof::root/verify", "crypto/src/merkle.rs")],
)
P(
    "K01",
    "Exported extended keys import back unchanged",
    "Any extended secret key with any derivation path exports to a text that imports back to exactly the same key, chain code and path, and keys with paths too long for the format are refused rather than exported wrongly.",
    ["inputs"],
    "every secret key, chain code and path within the bounds",
    "tests round-trip fixed keys with short paths",
    ["crypto/src/key.rs"],
    [("ExtendedSK::to_slip32, from_slip32", "crypto/src/key.rs")],
)
P(
    "K02",
    "Malformed key exports are rejected, never misread",
    "Importing an extended key accepts a text exactly when its prefix, length, depth, padding byte and secret scalar are all valid for the format, never panics, and yields the key, chain code and path the payload encodes.",
    ["inputs"],
    "every payload of every length within the bounds and every prefix",
    "tests try a few malformed strings",
    ["crypto/src/key.rs"],
    [("ExtendedSK::from_slip32", "crypto/src/key.rs")],
)
P(
    "K03",
    "Child key derivation follows BIP32 for every index",
    "Deriving along any path yields the key and chain code that BIP32 prescribes for hardened and normal indexes, and the path records exactly the indexes taken. Hardening an index that is already hardened is refused and paths print each index with its hardened mark.",
    ["inputs"],
    "every parent key, chain code and index, every path within the bounds",
    "tests use the published vectors only",
    ["crypto/src/key.rs"],
    [("ExtendedSK::child/derive, KeyPath, KeyPathIndex", "crypto/src/key.rs")],
)
P(
    "K04",
    "Master keys come from valid seeds only",
    "Generating a master key accepts exactly the seed lengths of BIP32 (16 to 64 bytes), yields the left half of the keyed digest as secret and the right half as chain code, and refuses a digest that is not a valid secret.",
    ["inputs"],
    "every seed length within the bounds and every seed and key content",
    "tests use fixed seeds",
    ["crypto/src/key.rs"],
    [("MasterKeyGen::generate", "crypto/src/key.rs")],
)
P(
    "K05",
    "Signatures verify for the signed message and signer only",
    "A signature made with a secret key over a digest verifies with the matching public key over that digest, and verification with any other digest or key fails. Data that is not a 32-byte digest is refused without a panic.",
    ["inputs"],
    "every key pair, every digest, every other digest and key, every wrong length within the bounds",
    "tests sign one fixed message",
    ["crypto/src/signature.rs"],
    [("sign, verify", "crypto/src/signature.rs")],
)
P(
    "K06",
    "Encryption round-trips, and bad inputs are errors",
    "Decrypting what was encrypted with the same key and IV gives the original bytes for every length; keys or IVs of the wrong size and ciphertexts that are not properly padded blocks are errors, never panics or garbage accepted silently. Random bytes requested are delivered in the requested number or reported as an error.",
    ["inputs", "fault_sequences"],
    "every key, IV, plaintext and ciphertext length and content within the bounds, every outcome of the random source",
    "tests encrypt one fixed message",
    ["crypto/src/cipher.rs"],
    [("encrypt_aes_cbc, decrypt_aes_cbc, generate_random", "crypto/src/cipher.rs")],
)
P(
    "K07",
    "Derived passwords and mnemonics depend on every input",
    "The password derivation passes password, salt and iteration count unchanged and delivers the full-size output; a mnemonic has the requested number of words and its seed depends on the words and the passphrase as specified.",
    ["inputs"],
    "every password, salt, iteration count, entropy and passphrase within the bounds",
    "tests use fixed inputs",
    ["crypto/src/pbkdf2.rs", "crypto/src/mnemonic.rs"],
    [("pbkdf2_sha256; MnemonicGen, Mnemonic::seed", "crypto/src/pbkdf2.rs, crypto/src/mnemonic.rs")],
)
P(
    "S01",
    "The store is a map: reads return the last write, listings are exact",
    "After any sequence of puts and deletes, reading a key returns the value last put under it or nothing, and listing by prefix returns exactly the pairs whose key starts with the prefix, each once. The backend-less store reports an error instead of pretending to have stored anything.",
    ["histories", "inputs"],
    "every sequence of operations within the bounds, every key, value and prefix",
    "tests run one fixed sequence",
    ["storage/src/backends/hashmap.rs", "storage/src/backends/nobackend.rs"],
    [("Storage for the hash map backend", "storage/src/backends/hashmap.rs"), ("Storage for NoStorage", "storage/src/backends/nobackend.rs")],
)
P(
    "S02",
    "A batch is applied in order and all at once",
    "Writing a batch has the effect of its operations in the order they were added, also when they touch the same key, and no other thread can read the store in a state where only part of the batch is applied.",
    ["histories", "schedules", "inputs"],
    "every batch within the bounds, every point at which another thread could read",
    "tests never read while a batch is being written and use distinct keys",
    ["storage/src/storage.rs", "storage/src/backends/hashmap.rs"],
    [("WriteBatch and Storage::write", "storage/src/storage.rs, storage/src/backends/hashmap.rs")],
)
P(
    "P01",
    "Secrets are wiped before their memory is released",
    "However a protected value is created, converted, replaced or dropped, no memory block that held the secret is returned to the allocator before it is zeroed.",
    ["programs", "inputs"],
    "every constructor and conversion, every secret value",
    "tests cannot observe freed memory",
    ["protected/src/lib.rs"],
    [("Drop for Protected and ProtectedString", "protected/src/lib.rs")],
)
P(
    "P02",
    "Secrets are never printed and compare by content",
    "Debug output of a protected value is the same for every secret, in every formatting mode, and two protected values are equal exactly when their contents are.",
    ["inputs"],
    "every secret within the bounds, every debug format, every pair",
    "tests format one fixed secret",
    ["protected/src/lib.rs"],
    [("Debug and PartialEq for Protected and ProtectedString", "protected/src/lib.rs")],
)
P(
    "P03",
    "Serialized secrets read back unchanged",
    "A protected value that is serialized, in a binary or a self-describing format, deserializes to an equal protected value.",
    ["inputs"],
    "every secret within the bounds, both formats",
    "tests do not deserialize what they serialize",
    ["protected/src/lib.rs"],
    [("Serialize and Deserialize for Protected and ProtectedString", "protected/src/lib.rs")],
)
P(
    "F01",
    "Flattening a nested result keeps value and error",
    "Flattening a future of a nested result resolves to the inner value when both layers succeed and otherwise to the error of the layer that failed, converted to the common error type.",
    ["inputs"],
    "every nesting and every content",
    "tests do not cover this helper at all",
    ["futures_utils/src/lib.rs"],
    [("TryFutureExt2::flatten_err", "futures_utils/src/lib.rs")],
)
P(
    "D01",
    "The stakes tracker is an exact ledger of what was staked",
    "After any history of stake additions and withdrawals, every validator and withdrawer pair holds exactly what it added minus what it took out, the totals agree, stakes below the minimum are refused, an operation that fails changes nothing, and an entry that was emptied is gone.",
    ["histories", "inputs"],
    "every history of operations within the bounds, every amount, epoch and minimum, every choice of validator and withdrawer",
    "unit tests run a few fixed histories with round amounts; failures half way and entries around the minimum are products of history and values",
    ["data_structures/src/staking/stakes.rs", "data_structures/src/staking/stake.rs"],
    [("Stakes::add_stake, remove_stake, query_stakes", "data_structures/src/staking/stakes.rs"), ("Stake::add_stake, remove_stake", "data_structures/src/staking/stake.rs")],
)
P(
    "V01",
    "A value transfer creates no coins and spends only its owners' coins",
    "A value transfer is accepted exactly if every input exists, is unspent, unlocked, used once and signed by its owner, the outputs are not zero and worth at most the inputs without any sum overflowing, and the weight is within the limit; its fee is the difference and every signature is put up for verification against the hash of the transaction.",
    ["inputs"],
    "every value, time lock, weight limit, owner and signer within the bounds, inputs in the pool or created or spent earlier in the block",
    "tests use a few fixed amounts; overflow boundaries, repeated inputs and lock times interact",
    ["validations/src/validations.rs", "data_structures/src/utxo_pool.rs"],
    [("validate_vt_transaction, vt_transaction_fee, validate_transaction_signature", "validations/src/validations.rs")],
)
P(
    "V03",
    "A stake is accepted exactly within its limits and conserves value",
    "A stake transaction is accepted exactly if staking is active, its value is at least the minimum and together with what the validator has staked at most the maximum, it does not add to a validator of somebody else's, and its inputs are spendable by their signers and cover stake and change; its fee is the difference.",
    ["inputs"],
    "every value, limit and existing stake within the bounds",
    "tests check each rule on one fixed amount; the accepted region is a product of amounts, limits and existing stakes",
    ["validations/src/validations.rs", "data_structures/src/staking/stakes.rs"],
    [("validate_stake_transaction, st_transaction_fee", "validations/src/validations.rs")],
)
P(
    "V04",
    "Only the withdrawer can unstake, no more than is staked, never too early",
    "An unstake transaction is accepted exactly if it is signed by the withdrawer of the stake, asks for no more than is staked, leaves nothing or at least the minimum, names the current nonce of the stake and locks its output at least for the required delay; processing it then takes exactly the withdrawal and the fee out of the stake.",
    ["inputs"],
    "every stake, withdrawal, fee, nonce, lock and limit, under every protocol version with staking",
    "tests check each rule on one fixed amount",
    ["validations/src/validations.rs", "data_structures/src/staking/stakes.rs", "data_structures/src/staking/helpers.rs"],
    [("validate_unstake_transaction, validate_unstake_signature", "validations/src/validations.rs"), ("process_unstake_transaction", "data_structures/src/staking/stakes.rs")],
)
P(
    "V02",
    "A data request is accepted exactly within its limits and pays for itself",
    "A data request is accepted exactly if its owners' inputs cover the rewards and fees of all its witnesses and its change, change goes back to the first input's owner, its witnesses, reward, consensus percentage, collateral and weight are within the limits, and its sources, filters and reducers are ones that are active and parse; its fee is the difference.",
    ["inputs"],
    "every amount, witness count, limit and minimum, every filter and reducer number, every combination of the fields of a source, before and after the protocol improvements that change the rules",
    "tests use fixed round amounts and one request at a time; products of reward, fee and witnesses overflow only for particular values",
    ["validations/src/validations.rs", "data_structures/src/chain/mod.rs", "rad/src/lib.rs"],
    [("validate_dr_transaction, validate_data_request_output, validate_rad_request, dr_transaction_fee", "validations/src/validations.rs")],
)
P(
    "V05",
    "Only eligible witnesses commit, and only what was committed is revealed",
    "A commitment is accepted exactly if its request awaits commitments, the prover of eligibility signs it and puts up exactly the required collateral (from mature coins of its own before protocol 2.0, from its stake since), and eligibility is checked for this request against the threshold of its round. A reveal is accepted exactly if whoever signs it committed to this very signature and has not revealed yet.",
    ["inputs"],
    "every amount, age, lock, minimum, fee, round and witness count, either of two provers and signers, every stage of the request, protocols 1.7, 2.0 and 2.1",
    "tests break one rule at a time with fixed amounts; the accepted region is a product of amounts, ages and versions",
    ["validations/src/validations.rs"],
    [("validate_commit_transaction, validate_commit_collateral, validate_commit_reveal_signature, validate_reveal_transaction", "validations/src/validations.rs")],
)
P(
    "V06",
    "A tally pays exactly what its request and its reveals entail",
    "The tally of a data request pays every witness what it earned, returns to the requester what was not spent, and together with the miner's fees, what is slashed and what is paid into stakes amounts to exactly what was paid in; it names exactly those who lied, erred or did not reveal. Any other tally is rejected.",
    ["inputs"],
    "every reward, fee and collateral that fit together, every combination of witnesses that do not reveal, agree, err or lie, every deviation from the expected tally, before WIP-0023, after it and under protocol 2.0",
    "tests check fixed histories with round amounts; conservation with remainders and the coincidence of amounts between owners need particular values",
    ["validations/src/validations.rs", "data_structures/src/data_request.rs"],
    [("validate_tally_transaction", "validations/src/validations.rs"), ("create_tally, calculate_witness_reward, calculate_tally_change", "data_structures/src/data_request.rs")],
)
P(
    "V07",
    "A block mints exactly its reward and its fees",
    "The block reward is the initial reward halved once per halving period, the total of all rewards is their sum, and the mint transaction of a block is accepted exactly if it is of the epoch of the block and, before protocol 2.0, pays exactly the reward and the fees of its transactions in one or two outputs that are not empty, and nothing at all since; splitting the reward with another address pays all of it.",
    ["inputs"],
    "every epoch, reward, fee and minted amount within the bounds, before and since protocol 2.0",
    "tests check a few epochs and amounts; off-by-one periods, shifts and sums overflow only for particular values",
    ["validations/src/validations.rs", "data_structures/src/transaction.rs"],
    [("validate_mint_transaction, block_reward, total_block_reward", "validations/src/validations.rs"), ("MintTransaction::with_external_address", "data_structures/src/transaction.rs")],
)
P(
    "V08",
    "A block is accepted exactly if it extends the chain and all it does adds up",
    "A block header is accepted exactly if it is neither from the future nor older than the last block, builds on that and carries a proof of eligibility (and since protocol 2.0 of mining power); the transactions of a block are accepted exactly if each is valid given those before it, no coin is spent twice, requests are committed to by all their witnesses or none, revealed and tallied once, nobody stakes or unstakes twice, weights are within their limits, the mint is right and every merkle root of the header is that of the block's transactions; the coins that exist afterwards are those before plus what is minted, minus what is staked or locked.",
    ["inputs"],
    "every amount, lock and limit, every choice of inputs, witnesses and validators within the bounds, every deviating header field",
    "tests build a few blocks with fixed transactions; interactions between transactions of one block are products of choices and amounts",
    ["validations/src/validations.rs", "data_structures/src/utxo_pool.rs"],
    [("validate_block, validate_block_transactions, validate_update_stake", "validations/src/validations.rs"), ("UtxoDiff", "data_structures/src/utxo_pool.rs")],
)
P(
    "V09",
    "Eligibility by stake follows the ranking by power",
    "A validator may mine exactly if it stakes and fewer validators than the replication factor have more power than it at that epoch; whether it may witness depends on its place in the ranking and its share of power exactly as the number of witnesses and the round demand, and nobody without stake or power may.",
    ["inputs"],
    "every stake, age, epoch and replication factor, witness count and round within the bounds",
    "tests use fixed stakes; ties, fresh stakes and boundaries of the ranking are particular values",
    ["validations/src/eligibility/current.rs", "data_structures/src/staking/stakes.rs"],
    [("Eligible::mining_eligibility, witnessing_eligibility", "validations/src/eligibility/current.rs"), ("Stakes::by_rank", "data_structures/src/staking/stakes.rs")],
)
P(
    "V10",
    "Competing blocks have one best candidate on every node",
    "The comparison of two block candidates is antisymmetric, transitive and total: candidates compare equal only if they have the same slot, standing, power, proof and hash. Before protocol 2.0 a better slot wins, then reputation, activity, the lower proof and the lower hash; since 2.0 more power, then the lower proof and the lower hash.",
    ["inputs"],
    "every two and every three candidates, every slot threshold, protocols 1.7, 2.0 and 2.1",
    "tests compare a few pairs; being a strict order is a statement about all pairs and triples",
    ["validations/src/validations.rs"],
    [("compare_block_candidates", "validations/src/validations.rs")],
)
P(
    "V11",
    "Eligibility thresholds let the expected number of identities in",
    "Before protocol 2.0 the proof of a miner must be below a threshold proportional to the replication factor over the active identities, never above the minimum difficulty while that applies; slots follow the thresholds of each replication factor in order; the threshold of a witness is proportional to its reputation, capped at certainty, and never divides by zero.",
    ["inputs"],
    "every proof and replication factor, reputation, witness count, identity count and minimum difficulty within the bounds, before and after the protocol improvements that change them",
    "tests compare a few numbers; boundaries and overflow are particular values",
    ["validations/src/eligibility/legacy.rs"],
    [("calculate_randpoe_threshold, calculate_reppoe_threshold, VrfSlots", "validations/src/eligibility/legacy.rs")],
)
P(
    "V12",
    "The genesis block only creates the coins that leave room for all rewards",
    "A genesis block is accepted exactly if it is the one of the expected hash and has nothing its hash does not commit to; its transactions are accepted exactly if they have outputs of some value and neither inputs nor signatures, and all coins together with all future rewards fit the supply; afterwards exactly those coins exist.",
    ["inputs"],
    "every value of every output, every expected hash, every further content within the bounds",
    "tests check two fixed blocks; the bound on the sum needs particular values",
    ["validations/src/validations.rs"],
    [("validate_genesis_block, validate_genesis_vt_transaction", "validations/src/validations.rs")],
)
P(
    "V13",
    "Spending consumes the inputs, creates the outputs and keeps their age honest",
    "Applying a transaction to the unspent outputs removes exactly its inputs and creates exactly its outputs, with time locks that are relative since protocol 2.0 resolved against the block; an output counts as old as the youngest input if it returns to the only owner of the inputs, and as new otherwise, so it is never older than the coins it was made of.",
    ["inputs"],
    "every value, lock, block number and combination of owners within the bounds",
    "tests check a few combinations of owners and block numbers",
    ["validations/src/validations.rs", "data_structures/src/utxo_pool.rs"],
    [("update_utxo_diff", "validations/src/validations.rs"), ("UtxoDiff, Diff::apply", "data_structures/src/utxo_pool.rs")],
)
P(
    "V14",
    "Every signature and proof of a block is checked against what it claims",
    "Verification of what a block puts up accepts exactly proofs and signatures made by the claimed key for exactly this epoch and chain, request, withdrawer or message, and with a proof below its target.",
    ["inputs"],
    "every kind of proof and signature, every target, each part right or of somebody or something else",
    "tests check a valid and an invalid signature",
    ["validations/src/validations.rs", "data_structures/src/vrf.rs"],
    [("verify_signatures", "validations/src/validations.rs"), ("BlockEligibilityClaim, DataRequestEligibilityClaim", "data_structures/src/vrf.rs")],
)
P(
    "N01",
    "The book of peers stays within its slots and never offers what it must not",
    "A found peer takes the slot its address and source determine, a tried one that of its address, and pushes out only who had it; a dropped peer is gone, an iced one is not offered or added until its time is over and then is forgotten; our own address is never kept; the random selection returns different known peers, as many as asked or there are.",
    ["inputs", "histories"],
    "every address and nonce, every time, every short history of finding, trying, dropping and icing",
    "tests use a handful of addresses with fixed nonces; collisions of slots need particular hashes",
    ["p2p/src/peers/mod.rs"],
    [("Peers", "p2p/src/peers/mod.rs")],
)
P(
    "N02",
    "The sessions open are the sessions counted",
    "After every history of registering, consolidating and closing sessions each open session is in exactly one list, limits on numbers of sessions are never exceeded, the networks taken by inbound sessions are exactly those of the open ones, and operations on unknown or doubled addresses fail and change nothing; what is anycast only goes to consolidated sessions.",
    ["inputs", "histories"],
    "every history of operations, addresses sharing networks, limits and kinds of session within the bounds",
    "tests do one or two operations on one session; leaks of counters or networks appear after particular sequences",
    ["p2p/src/sessions/mod.rs", "p2p/src/sessions/bounded_sessions.rs"],
    [("Sessions", "p2p/src/sessions/mod.rs"), ("BoundedSessions", "p2p/src/sessions/bounded_sessions.rs")],
)
P(
    "C01",
    "What is configured is what is used, and nothing else",
    "A setting given in the configuration is used as given and every other one is the default of the environment; outside of development no configuration changes a consensus constant; known peers add to those of the environment; secrets are never exported; exporting and importing a configuration changes nothing else; no transport, no start.",
    ["inputs"],
    "every value of every single setting, of all of them and of all but one, in every environment",
    "tests cover storage and connections defaults; a setting read from its neighbour shows only when that one is set",
    ["config/src/config.rs", "config/src/defaults.rs", "data_structures/src/witnessing.rs"],
    [("Config::from_partial, to_partial", "config/src/config.rs"), ("Witnessing::into_config", "config/src/config.rs")],
)
P(
    "D02",
    "A data request goes through its stages once, and in order",
    "A request awaits commitments, then reveals, then its tally: it moves on exactly when commitments arrived, all witnesses revealed, its extra rounds are over or it asks for too many witnesses; each witness counts once per stage, nothing is taken in another stage, own reveals are sent exactly while due, and it is finished once. The pool's views and the total locked agree with that.",
    ["histories", "inputs"],
    "every history of commitments, reveals, tallies and blocks within the bounds, every number of rounds and witnesses, every amount",
    "tests follow four fixed histories; late, repeated and missing messages in each round are combinations",
    ["data_structures/src/data_request.rs", "data_structures/src/chain/mod.rs"],
    [("DataRequestPool", "data_structures/src/data_request.rs"), ("DataRequestState", "data_structures/src/chain/mod.rs")],
)
P(
    "D03",
    "Superblock votes: one per member, two thirds decide, double voters are out",
    "A vote counts if it is for the current superblock and by a member of its committee; later ones wait for the next superblock. Each member counts once however often a vote is sent; a member who votes for two superblocks does not count at all. Consensus is reached at two thirds, said to be impossible exactly when missing votes cannot decide, never for two superblocks. The committee has the size asked for and only known identities.",
    ["histories", "inputs", "schedules"],
    "every history of votes, early votes and superblocks within the bounds, every committee size, every superblock hash",
    "tests cast a few votes in fixed orders; repeated, conflicting and early votes combine",
    ["data_structures/src/superblock.rs"],
    [("SuperBlockState", "data_structures/src/superblock.rs"), ("calculate_superblock_signing_committee", "data_structures/src/superblock.rs")],
)

P(
    "D15",
    "Superblocks commit to their contents, and proofs of inclusion lead to them",
    "A superblock holds the roots over the data requests and tallies of its blocks and over the keys of the identities, and ends with its last block; its hash is equal exactly when the contents are. Every data request and tally of its blocks has a proof of inclusion that verifies against the superblock, and nothing else has.",
    ["inputs"],
    "every number of blocks and transactions within the bounds, every position and contents",
    "tests check seven fixed trees with made-up transactions",
    ["data_structures/src/superblock.rs", "data_structures/src/chain/mod.rs", "data_structures/src/transaction.rs"],
    [("mining_build_superblock", "data_structures/src/superblock.rs"), ("SuperBlock::dr_proof_of_inclusion", "data_structures/src/chain/mod.rs"), ("TxInclusionProof", "data_structures/src/transaction.rs")],
)
P(
    "D06",
    "Messages read back as they were written, and no bytes bring the reader down",
    "Every transaction and every message between nodes, written in the format of any protocol version, reads back equal to what was written. Whatever bytes a peer sends, reading them ends in a message or an error, never a panic; and a message that was read can be written again and is read back as the same message.",
    ["inputs"],
    "every value of the fields within the bounds, every one-byte change and every prefix of sample messages, every short message",
    "tests read a handful of recorded messages",
    ["data_structures/src/proto/versioning.rs", "data_structures/src/proto/mod.rs", "data_structures/src/types.rs", "data_structures/src/transaction.rs", "data_structures/src/chain/mod.rs"],
    [("Versioned::from_versioned_pb_bytes", "data_structures/src/proto/versioning.rs"), ("ProtobufConvert", "data_structures/src/proto/mod.rs"), ("Message", "data_structures/src/types.rs")],
)
P(
    "D07",
    "Hashes commit to all of the contents",
    "Two transactions of the same kind have the same hash exactly when their bodies are equal, whatever the signatures, and in every protocol version. The same holds for block headers (of which the first protocol has no stake roots), superblocks, data requests and checkpoints; a block has the hash of its header, and a copy has the hash of its original. (Hash functions are taken to have no collisions.)",
    ["inputs"],
    "every pair of contents within the bounds",
    "tests compare the hashes of some fixed transactions with recorded values",
    ["data_structures/src/transaction.rs", "data_structures/src/proto/versioning.rs", "data_structures/src/chain/mod.rs"],
    [("MemoizedHashable", "data_structures/src/transaction.rs"), ("VersionedHashable", "data_structures/src/proto/versioning.rs"), ("SuperBlock::serialize_as_bytes", "data_structures/src/chain/mod.rs")],
)
P(
    "D04",
    "Power is coins times age, ranks follow it, and mining resets it",
    "The power of a stake is its whole Wits times the epochs since the weighted average of the epochs of its coins; it never depends on anything else. Ranks and census list every staker once by decreasing power, with a fixed order among equals. Mining a block resets the age of the winner and of everybody ranked before, the better the rank the longer, and leaves all others and the witnessing age alone. Adding coins gives an epoch between the old and the new one.",
    ["inputs"],
    "every combination of amounts, epochs and winners within the bounds",
    "tests check one sequence of four stakers and some ranks",
    ["data_structures/src/staking/stakes.rs", "data_structures/src/staking/stake.rs", "data_structures/src/capabilities.rs"],
    [("Stakes::by_rank", "data_structures/src/staking/stakes.rs"), ("Stakes::reset_mining_age", "data_structures/src/staking/stakes.rs"), ("Stake::power", "data_structures/src/staking/stake.rs"), ("Stake::add_stake", "data_structures/src/staking/stake.rs")],
)
P(
    "D05",
    "The pool of unspent outputs never loses or resurrects a coin",
    "After any history of blocks, snapshots, persisted snapshots and restarts, the pool holds exactly the outputs that were created and not spent, with their values, owners, time locks and blocks, whichever way it is asked: by pointer, by listing, by address. What is persisted is the snapshot that was persisted, also while newer blocks are in memory, and a restart gives exactly that state, with or without the cache of addresses.",
    ["histories", "crash_points"],
    "every history within the bounds, with outputs of any value and time lock",
    "tests check some fixed sequences of three superblocks",
    ["data_structures/src/utxo_pool.rs", "data_structures/src/utxo_pool/utxo_db.rs", "storage/src/backends/hashmap.rs"],
    [("UnspentOutputsPool", "data_structures/src/utxo_pool.rs"), ("UtxoDiff", "data_structures/src/utxo_pool.rs"), ("CacheUtxosByPkh", "data_structures/src/utxo_pool/utxo_db.rs")],
)
P(
    "D16",
    "Transactions that are built spend free coins of one's own, and exactly those",
    "A transaction built from one's own outputs spends only outputs that are one's own, neither locked nor in use nor too young, each once and in the order asked for; its outputs are those asked for and the change to oneself, so that inputs are outputs plus fee. A relative fee is the rate times the weight of the whole transaction, which is within its limit. Building fails exactly for lack of money (or by weight), and then, or in a dry run, nothing is marked as in use. Balances add up all unspent outputs.",
    ["inputs"],
    "every value, time lock, use and age of the outputs, amount and fee within the bounds",
    "tests check some fixed sets of outputs",
    ["data_structures/src/transaction_factory.rs", "data_structures/src/utxo_pool.rs", "data_structures/src/fee.rs"],
    [("OutputsCollection::take_enough_utxos", "data_structures/src/transaction_factory.rs"), ("build_vtt", "data_structures/src/transaction_factory.rs"), ("build_st", "data_structures/src/transaction_factory.rs"), ("build_commit_collateral", "data_structures/src/transaction_factory.rs")],
)
P(
    "D08",
    "Written forms of hashes, addresses, pointers, keys and amounts read back",
    "The written form of every hash, address (bech32 and hexadecimal), output pointer, public key and recoverable signature reads back as the same thing, and amounts show their exact wits and nanowits. Addresses of another network are refused. Whatever text or bytes a user gives, reading ends in a value or an error, never a panic.",
    ["inputs"],
    "every value of the bytes and texts within the bounds",
    "tests read a handful of fixed addresses and hashes",
    ["data_structures/src/chain/mod.rs", "data_structures/src/wit.rs"],
    [("Hash::from_str", "data_structures/src/chain/mod.rs"), ("PublicKeyHash::from_bech32", "data_structures/src/chain/mod.rs"), ("OutputPointer::from_str", "data_structures/src/chain/mod.rs"), ("KeyedSignature::from_recoverable_slice", "data_structures/src/chain/mod.rs"), ("Wit", "data_structures/src/wit.rs")],
)
P(
    "D09",
    "Every second belongs to exactly one epoch, also across the change of period",
    "The epoch at a time is the one that started last, and every epoch starts when all epochs before it have passed, with the period of the protocol version it is in; the two directions agree at every second, before, at and after the activation of 2.0. Blocks are mined at half of the epoch. Times before the first epoch and epochs too far away are reported, never wrapped around.",
    ["inputs", "configurations"],
    "every time and epoch within the bounds, every starting time, periods and activation",
    "tests check some epochs around a fixed activation",
    ["data_structures/src/chain/mod.rs"],
    [("EpochConstants::epoch_at", "data_structures/src/chain/mod.rs"), ("EpochConstants::epoch_timestamp", "data_structures/src/chain/mod.rs"), ("EpochConstants::set_values_for_wit2", "data_structures/src/chain/mod.rs")],
)
P(
    "D10",
    "The protocol version in force is the latest activated one",
    "For every epoch the version in force is the latest of the registered versions that is activated by then, whatever the order of registration; versions that are not registered are never activated. Versions are ordered by age, and the time of an activation follows from the epochs and periods of the versions before.",
    ["inputs", "configurations"],
    "every combination of registered versions and activation epochs, every epoch asked for",
    "tests check three fixed epochs",
    ["data_structures/src/proto/versioning.rs", "data_structures/src/lib.rs"],
    [("VersionsMap", "data_structures/src/proto/versioning.rs"), ("ProtocolVersion", "data_structures/src/proto/versioning.rs"), ("get_protocol_version", "data_structures/src/lib.rs")],
)
P(
    "D12",
    "Improvements are activated by four fifths of the signals, and in their epoch",
    "A proposal is activated 21 epochs after the first period within its voting range in which at least four fifths of the epochs signalled it, where an epoch without block counts as one without signal; then the activation never changes. Other bits, other proposals and avoided proposals have no influence. Improvements and forks that were decided are in force since their epochs in the main network, and always elsewhere.",
    ["histories", "inputs"],
    "every history of signals within the bounds, every epoch",
    "tests replay fixed sequences of signals",
    ["data_structures/src/chain/tapi.rs"],
    [("TapiEngine::update_bit_counter", "data_structures/src/chain/tapi.rs"), ("TapiEngine::initialize_wip_information", "data_structures/src/chain/tapi.rs"), ("ActiveWips", "data_structures/src/chain/tapi.rs")],
)
P(
    "D13",
    "Advised priorities follow what recent blocks paid, faster never cheaper",
    "The priorities recorded for a block are the highest and the lowest (once one has paid) per kind of transaction, and only of its own kind. The engine keeps the latest blocks, in order, up to its capacity. With fewer than 20 blocks it tells how long to wait for the missing ones; with 20 it always gives advice, in which a faster tier never asks for less than a slower one, no tier asks for less than its default, none for more than its default or what some block required, and transactions of one kind do not move the advice for another.",
    ["inputs", "histories"],
    "every amount, proportion and period within the bounds",
    "tests use some random distributions",
    ["data_structures/src/chain/priority.rs"],
    [("Priorities::digest_*", "data_structures/src/chain/priority.rs"), ("PriorityEngine", "data_structures/src/chain/priority.rs"), ("strategies::target_minutes", "data_structures/src/chain/priority.rs")],
)
P(
    "D11",
    "The transaction pool holds what is pending, within its limit, best paying first",
    "After any history of insertions, confirmations, removals and changes of the limit, the pool holds exactly the transactions that were inserted and neither confirmed, nor in conflict with a confirmed one (that spends one of their inputs), nor removed, and offers each kind by decreasing fee per weight. It never exceeds its weight limit: the least paying transactions go first, and are reported. Transactions that pay too little are given back. Commitments are mined only in the number a request asks for and never two with the same collateral, with the fees of exactly those; reveals only for known requests.",
    ["histories", "inputs"],
    "every history of operations within the bounds, every choice of conflicting inputs",
    "tests check some fixed sequences of two to five transactions",
    ["data_structures/src/chain/mod.rs", "data_structures/src/data_request.rs"],
    [("TransactionsPool", "data_structures/src/chain/mod.rs"), ("TransactionsPool::remove_commits", "data_structures/src/chain/mod.rs"), ("calculate_reward_collateral_ratio", "data_structures/src/data_request.rs")],
)
