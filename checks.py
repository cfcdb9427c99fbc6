"""Which harnesses decide which property (see DESIGN.md)."""
B = "h_bundle::"
V = "h_value::"
K = "h_keys::"
D = "h_codec::"
M = "h_merkle::"
E = "h_enc::"
# keeps the contents of heap objects as separate variables
FS = ["--max-field-sensitivity-array-size", "1024"]
CHECKS = {
 "C02": dict(
  quick=[V + "v_arith", V + "v_sum"],
  explanation="Differences, sums and conversions of the real value types are executed symbolically and compared with exact 128-bit arithmetic.",
  bounds="single operations: all 64-bit values and all representable sums; sums of three symbolic terms"),
 "C03": dict(
  quick=[V + "cv_def", V + "cv_hom", V + "cv_sub", V + "rcv_sum", V + "cv_codec", B + "binding_key"],
  explanation="Commitments derived by the real code are compared with the defining formula over the group model for every value and trapdoor.",
  bounds="all values/trapdoors/points of the group model; sums of up to three terms; two-action bundles for the binding key"),
 "C07": dict(
  quick=[B + "batch_two", B + "batch_actions", B + "batch_empty"],
  explanation="Bundles with arbitrary public data are added to a real batch validator with proofs and signatures that are correct up to symbolic corruptions; acceptance must coincide with all corruptions being zero.",
  bounds="two bundles of one action; one bundle of two actions; constant ciphertexts (they are not looked at); 6 and 4 symbolic corruption bytes"),
 "C08": dict(
  quick=[B + "txid_one", B + "txid_two", B + "txid_empty"],
  explanation="The digest computed by the real code is compared with an independent transcription of ZIP 244 over an injective hash model, all bytes of the bundle being symbolic.",
  bounds="bundles of one and two actions; every byte symbolic"),
 "C09": dict(
  quick=[B + "auth_digest", B + "txid_empty"],
  explanation="The authorizing digest of the real code is compared with an independent transcription of ZIP 244, all bytes of proof and signatures being symbolic.",
  bounds="two actions; proofs of 96 bytes"),
 "C10": dict(
  quick=[B + "flag_codec", B + "proof_statement"],
  explanation="All 256 flag bytes symbolically; proof verification of a bundle with arbitrary public data against a proof of the specified statement with each of the 18 public inputs symbolically corrupted.",
  bounds="two actions; the proof system is modelled as equality of statements"),
 "C26": dict(
  quick=[B + x for x in ("map_auth", "try_map_ok", "try_map_fail0", "try_map_fail1", "try_map_fail2", "map_balance")],
  explanation="The real mapping functions run on bundles with symbolic content; every field is compared before and after.",
  bounds="two actions, each failure position (two actions, one bundle authorization)"),
 "C11": dict(
  quick=[K + x for x in ("fvk_codec", "fvk_read", "ivk_codec", "addr_codec", "addr_eq", "ovk_bytes")],
  explanation="The real parsers run on fully symbolic byte strings, in a mode of the hash models where some keys have no incoming viewing key and some hashes are the identity; acceptance is compared with the specified condition.",
  bounds="all byte strings of the encoding lengths; streams of 95 and 98 bytes"),
 "C12": dict(
  quick=[D + x for x in ("nullifier", "commitment", "anchor_rho_node", "equality", "value_commitment", "verification_key", "signature", "note_value", "sign_verify")],
  explanation="The real parsers and comparisons run on fully symbolic byte strings and pairs of encodings.",
  bounds="all 32- and 64-byte strings; messages of 40 bytes"),
 "C13": dict(
  quick=[K + x for x in ("sk_valid", "fvk_of_sk", "ask_of_sk", "scope_external", "scope_internal")],
  explanation="The real derivations run on symbolic spending keys and viewing keys and are compared with an independent transcription of the key components of the protocol over the same primitive models.",
  bounds="all 32-byte spending keys, all full viewing keys, both scopes"),
 "C14": dict(
  quick=[K + x for x in ("address_at", "address_of_diversifier", "index_of_address", "index_round_trip", "scope_of_address")],
  explanation="The real address derivation and recognition run on symbolic keys, indices, diversifiers and addresses and are compared with the defining formulas over the FF1 and group models.",
  bounds="all viewing keys, indices, diversifiers and addresses of the models"),
 "C15": dict(
  quick=["h_zip32::" + x for x in ("seed32", "seed33", "seed64", "seed252", "invalid_key")],
  explanation="The real derivation runs on symbolic seeds, coin types and accounts and is compared with an independent transcription of ZIP 32 over the injective hash model.",
  bounds="seeds of 32, 33, 64 and 252 bytes (32 bytes for the invalid-key case); all coin types and accounts"),
 "C16": dict(
  quick=[K + "randomize", K + "ask_of_sk", D + "sign_verify"],
  explanation="The real randomization, signing and verification run on symbolic spending keys, randomizers and messages over the signature model.",
  bounds="all 32-byte spending keys, all randomizers, 32-byte messages"),
 "C23": dict(
  quick=[M + x for x in ("combine", "leaf", "empty", "root0", "root1", "converted0", "converted1")],
  thorough=[M + "root_any"],
  explanation="One real node hash is compared with its definition for symbolic children at every level; the real path computation runs over a programmable hash oracle that returns the node of each level only for the specified children.",
  bounds="full depth 32, all leaves and siblings; positions: two pairs of complementary patterns (quick), all (thorough)",
  assumptions=["In the path harnesses the hash is an oracle with fixed outputs, one per level."]),
 "C25": dict(
  quick=["h_note::" + x for x in ("note_commitment", "note_nullifier", "note_eq")],
  explanation="Notes are made by the real code from symbolic parts, in a mode where some commitments do not exist, and compared with an independent transcription of the note commitment and nullifier definitions.",
  bounds="all addresses, values, rho values, seeds and viewing keys of the models"),
 "C17": dict(
  quick=[E + "encrypt", E + "encrypt_out"],
  thorough=[E + "round_trip", E + "recover_round_trip"],
  explanation="The real encryption runs on notes made from symbolic parts; ciphertexts and ephemeral key are compared with an independent transcription of the encryption over the cipher model; in the thorough tier the real decryption and recovery run on the real ciphertexts.",
  bounds="all notes, 512-byte memos, outgoing keys and action fields of the models; one fixed random stream where no outgoing key is used",
  assumptions=["The group model is a ring with zero divisors: shared secrets are assumed not to be the identity."]),
 "C18": dict(
  quick=[E + "decrypt", E + "bad_epk"],
  explanation="The real trial decryption runs on actions with symbolic nullifier, commitment, ephemeral key and all 580 ciphertext bytes and a symbolic key; success and result must coincide with an independent transcription of the specified procedure.",
  bounds="all actions and incoming viewing keys of the models (ephemeral keys with integer part one)",
  assumptions=["The group model is a ring with zero divisors: shared secrets are assumed not to be the identity."]),
 "C19": dict(
  quick=[E + "decrypt_compact", E + "compact", E + "bad_epk"],
  explanation="The real compact decryption runs on symbolic compact actions and keys and is compared with an independent transcription; compact actions of symbolic actions are compared field by field.",
  bounds="all compact actions and incoming viewing keys of the models (ephemeral keys with integer part one)",
  assumptions=["The group model is a ring with zero divisors: shared secrets are assumed not to be the identity."]),
 "C20": dict(
  quick=[E + "recover", E + "ock_of_action"],
  harness_timeout=780,
  explanation="The real recovery runs on actions with every field and byte symbolic and a symbolic cipher key; success and result must coincide with an independent transcription of the specified procedure.",
  bounds="all actions and keys of the models (ephemeral keys and recipients' keys with integer part one)",
  assumptions=["The group model is a ring with zero divisors: shared secrets are assumed not to be the identity."]),
 "C21": dict(
  quick=[E + "bundle_" + x for x in ("one_ivk", "one_ovk", "ivks12", "ivks_second", "ivks_both", "ovks12", "ovks_both")],
  thorough=[E + "bundle_ovks_second"],
  cbmc=FS,
  explanation="The real search functions run on bundles encrypted to two parties with symbolic corruptions, with keys chosen symbolically among those of three parties; the results must be exactly the matching pairs in order.",
  bounds="two actions and two keys; ciphers reduced to the non-memo part; note contents fixed"),
 "C22": dict(
  quick=[E + "batch_outputs", E + "batch_bad", E + "batch_keys"],
  thorough=[E + "batch_both"],
  cbmc=FS,
  explanation="Batched compact decryption of symbolic outputs is compared with decrypting each output with each key by the single-output function.",
  bounds="up to three outputs with one key, one output with two keys (thorough: two and two); fixed ephemeral keys, one of them invalid"),
}
NOT_APPLICABLE = []
