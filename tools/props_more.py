p("C11", "Key and address encodings are canonical and round-trip",
  "A full viewing key, incoming viewing key, outgoing viewing key or raw address parses exactly from the encodings the protocol allows: canonical field and point encodings, non-identity points, even-sign spend validating keys, and only keys for which the incoming keys of both scopes exist. What parses re-encodes to the same bytes, reading from a stream consumes exactly one encoding, and equality of the objects coincides with equality of their encodings.",
  "all 96-, 64-, 43- and 32-byte strings",
  "test vectors contain valid keys only; the rejected encodings (identity, odd sign, non-canonical, unusable keys) are single points or halves of the space",
  ["src/keys.rs", "src/address.rs"],
  [("viewing keys", "src/keys.rs: FullViewingKey::from_bytes / read / write"), ("incoming", "src/keys.rs: IncomingViewingKey::from_bytes"), ("address", "src/address.rs: from_raw_address_bytes")],
  ["from_bytes", "to_bytes", "read", "write"])
p("C12", "Field and point encodings are strict and round-trip",
  "Nullifiers, note commitments, anchors, tree nodes, rho values, trapdoors, value commitments and signature verification keys parse exactly from canonical encodings and re-encode to the same bytes; equality of two of them is equality of their encodings. Signatures carry their 64 bytes unchanged, and a signature verifies for exactly the message it was made for.",
  "all 32- and 64-byte strings, all pairs of canonical encodings",
  "tests only use encodings of valid objects",
  ["src/note/nullifier.rs", "src/note/commitment.rs", "src/tree.rs", "src/value.rs", "src/primitives/redpallas.rs", "src/note.rs"],
  [("nullifier", "src/note/nullifier.rs: from_bytes"), ("commitment", "src/note/commitment.rs: from_bytes"), ("anchor", "src/tree.rs: Anchor::from_bytes"), ("keys", "src/primitives/redpallas.rs: TryFrom")],
  ["from_bytes", "to_bytes"])
p("C13", "All keys are derived from the spending key as specified",
  "A spending key is accepted exactly when the incoming viewing keys of both scopes exist for it. Its full viewing key, spend authorizing key (normalised so that the validating key has even sign), and the diversifier, outgoing and incoming viewing keys of the external and of the internal scope are those of the protocol specification, and the authorizing key always matches the validating key inside the viewing key.",
  "all 32-byte spending keys, all full viewing keys, both scopes",
  "test vectors contain ten keys; whether a key needs its sign flipped or has no incoming key depends on the key",
  ["src/keys.rs", "src/spec.rs"],
  [("spending key", "src/keys.rs: SpendingKey::from_bytes"), ("authorizing key", "src/keys.rs: SpendAuthorizingKey::from"), ("scopes", "src/keys.rs: FullViewingKey::rivk / derive_dk_ovk / derive_internal"), ("ivk", "src/spec.rs: commit_ivk")],
  ["FullViewingKey::from", "to_ivk", "to_ovk"])
p("C14", "Addresses belong to their key, index and scope",
  "The address at a diversifier index or of a diversifier, under either scope of a viewing key, is the one of the protocol specification, also for diversifiers whose base point has to be replaced. An incoming viewing key recovers the index of exactly its own addresses and of no others, and the scope reported for an address is the scope that derives it.",
  "all viewing keys, all 88-bit indices and diversifiers, all addresses",
  "tests derive a few addresses and never ask about foreign ones with a chosen diversifier",
  ["src/keys.rs", "src/spec.rs", "src/address.rs"],
  [("derivation", "src/keys.rs: KeyAgreementPrivateKey::address"), ("recognition", "src/keys.rs: IncomingViewingKey::diversifier_index"), ("scope", "src/keys.rs: FullViewingKey::scope_for_address"), ("base", "src/spec.rs: diversify_hash")],
  ["address_at", "diversifier_index", "scope_for_address"])
p("C15", "ZIP 32 accounts follow the hardened path of the specification",
  "The spending key of an account is the one at the hardened path purpose 32, coin type, account of the ZIP 32 tree of the seed, with every byte of the seed contributing. A coin type that cannot be hardened is refused with an error naming it, and if any key on the path is not a valid spending key the derivation fails with that error.",
  "all seeds of 32, 33, 64 and 252 bytes, all coin types, all accounts",
  "tests have one seed and never meet an invalid intermediate key",
  ["src/zip32.rs", "src/keys.rs"],
  [("master", "src/zip32.rs: ExtendedSpendingKey::master"), ("child", "src/zip32.rs: derive_child"), ("path", "src/zip32.rs: from_path; src/keys.rs: from_zip32_seed")],
  ["SpendingKey::from_zip32_seed"])
p("C16", "Key randomization moves the signing and the validating key together",
  "Randomizing the authorizing key of a spending key and its validating key by the same randomizer yields a matching key pair: the validating key plus the randomizer times the generator. A signature by the randomized key verifies for its message under the randomized validating key, for no other message, and not under the original key unless the randomizer is zero.",
  "all spending keys, all randomizers, all messages of 32 bytes",
  "tests use random keys; the sign normalisation of the key affects half of them and a mismatch shows only in combination",
  ["src/keys.rs", "src/primitives/redpallas.rs"],
  [("signing key", "src/keys.rs: SpendAuthorizingKey::randomize"), ("validating key", "src/keys.rs: SpendValidatingKey::randomize"), ("wrappers", "src/primitives/redpallas.rs: sign / verify / randomize")],
  ["SpendAuthorizingKey::randomize", "VerificationKey::verify"])
p("C23", "Merkle paths, nodes and empty roots hash as specified",
  "A tree node is the hash of its level and its two children, and zero if that hash does not exist. The root of a path combines the leaf with the 32 siblings in order, at the side given by the bits of the position, and is the same for a path converted from the tree library. The empty root of every level is the repeated hash of the uncommitted leaf, and the anchor of the empty tree is the one of the full depth.",
  "all leaves and siblings, all positions (thorough; two complementary position patterns in the quick tier), all levels",
  "tests check fixed trees of sixteen leaves, where most positions bits are zero",
  ["src/tree.rs"],
  [("node", "src/tree.rs: MerkleHashOrchard::combine"), ("root", "src/tree.rs: MerklePath::root"), ("empty", "src/tree.rs: EMPTY_ROOTS"), ("conversion", "src/tree.rs: From<incrementalmerkletree::MerklePath>")],
  ["MerklePath::root", "Hashable::combine", "Anchor::empty_tree"])
p("C25", "Notes commit to all their content and have their specified nullifier",
  "A note can be made of given parts exactly when its commitment exists, keeps those parts, and commits to the address, the value, rho and the randomness derived from its seed and rho as specified. Its nullifier under a full viewing key is the one of the specification, and two notes are equal exactly when their commitments are.",
  "all addresses, values, rho values, seeds and viewing keys",
  "test vectors have ten notes; seeds without randomness and notes without commitment do not occur",
  ["src/note.rs", "src/note/commitment.rs", "src/note/nullifier.rs", "src/spec.rs"],
  [("note", "src/note.rs: Note::from_parts"), ("commitment", "src/note/commitment.rs: derive"), ("nullifier", "src/note/nullifier.rs: derive"), ("seed", "src/note.rs: RandomSeed")],
  ["Note::commitment", "Note::nullifier"])

p("C17", "Encryption produces the specified ciphertexts and they round-trip",
  "For every note, memo and outgoing viewing key, the ephemeral key, the note ciphertext and the outgoing ciphertext are those of the protocol specification, bound to the action by its value commitment, note commitment and ephemeral key, and the recipient's incoming viewing key and the sender's outgoing viewing key recover exactly the note, the recipient and the memo. Without an outgoing viewing key the outgoing ciphertext comes from fresh randomness and carries nothing about the note.",
  "all notes, memos, keys and action fields",
  "tests encrypt a few notes; a field that is dropped from a key derivation leaves round trips intact",
  ["src/note_encryption.rs", "src/note.rs", "src/keys.rs", "src/spec.rs"],
  [("domain", "src/note_encryption.rs: impl Domain for OrchardDomain"), ("outgoing", "src/note_encryption.rs: prf_ock_orchard"), ("kdf", "src/keys.rs: SharedSecret::kdf_orchard"), ("esk", "src/note.rs: RandomSeed::esk")],
  ["encrypt_note_plaintext", "encrypt_outgoing_plaintext"])
p("C18", "Trial decryption accepts exactly valid notes for the key",
  "Decrypting an action with an incoming viewing key succeeds exactly when the ciphertext authenticates under the shared key, the plaintext has the current lead byte, the note it describes (with the nullifier of the action as rho) exists and has the commitment of the action, and the ephemeral key is the one the note's seed determines. Then the note, the recipient (the diversified address of the key) and the memo are exactly those in the plaintext. An invalid ephemeral key is refused without a panic.",
  "all actions (every ciphertext byte), all incoming viewing keys",
  "tests decrypt honest ciphertexts; a malicious sender controls every field, and each missing check admits one class of forged notes",
  ["src/note_encryption.rs", "src/keys.rs", "src/note.rs"],
  [("plaintext", "src/note_encryption.rs: orchard_parse_note_plaintext_without_memo"), ("commitment", "src/note_encryption.rs: cmstar"), ("ephemeral key", "src/note_encryption.rs: derive_esk / ka_derive_public / epk")],
  ["try_note_decryption"])
p("C19", "Light clients decrypt what full clients decrypt",
  "A compact action carries the nullifier, commitment, ephemeral key and the first 52 ciphertext bytes of its action. Compact decryption succeeds exactly when those bytes decrypt to a plaintext with the current lead byte describing a note of the given commitment and ephemeral key, and returns that note and its recipient.",
  "all compact actions and incoming viewing keys",
  "tests only try honest ciphertexts with their own keys",
  ["src/note_encryption.rs"],
  [("compact", "src/note_encryption.rs: CompactAction"), ("decryption", "src/note_encryption.rs: parse_note_plaintext_without_memo_ivk")],
  ["try_compact_note_decryption", "CompactAction::from"])
p("C20", "Outgoing recovery accepts exactly consistent outputs",
  "The outgoing cipher key of an action is derived from the outgoing viewing key, the value commitment, the note commitment and the ephemeral key. Recovery with it succeeds exactly when the outgoing ciphertext authenticates and contains a valid recipient key and ephemeral secret, the note ciphertext authenticates under the key these determine, the note exists, has the commitment and ephemeral key of the action, and its seed determines that same ephemeral secret; the result is then exactly that note, recipient and memo.",
  "all actions (every ciphertext byte), all outgoing keys",
  "tests recover honest outputs; an inconsistent outgoing ciphertext must be crafted",
  ["src/note_encryption.rs"],
  [("keys", "src/note_encryption.rs: derive_ock / prf_ock_orchard"), ("recovery", "src/note_encryption.rs: extract_pk_d / extract_esk / parse_note_plaintext_without_memo_ovk")],
  ["try_output_recovery_with_ock", "try_output_recovery_with_ovk"])
p("C21", "Bundle-wide decryption and recovery find every matching action",
  "Searching a bundle with a list of incoming or outgoing keys returns, for each action in order that decrypts under some key, its index, the first matching key and the note, recipient and memo, and nothing else. Decrypting or recovering the action with a given index looks at exactly that action, and an index out of range gives nothing.",
  "all corruptions of the ciphertexts, all assignments of keys to positions in a bundle of two actions",
  "tests search bundles with one matching key; mismatched indices or keys show only with several",
  ["src/bundle.rs"],
  [("search", "src/bundle.rs: decrypt_outputs_with_keys / recover_outputs_with_ovks"), ("single", "src/bundle.rs: decrypt_output_with_key / recover_output_with_ovk")],
  ["decrypt_outputs_with_keys", "decrypt_output_with_key", "recover_outputs_with_ovks", "recover_output_with_ovk"])
p("C22", "Batched trial decryption agrees with one-by-one decryption",
  "Decrypting a batch of outputs with a list of keys gives for each output what the first key that decrypts it alone would give, together with that key's position, and nothing if none does, also when some ephemeral keys in the batch are invalid.",
  "all ciphertexts, commitments, nullifiers and keys in batches of up to three outputs and two keys",
  "tests have a single honest output per batch; an invalid key in the middle or a second key is not tried",
  ["src/note_encryption.rs", "src/keys.rs", "src/spec.rs"],
  [("batch", "src/note_encryption.rs: impl BatchDomain for OrchardDomain"), ("prepared keys", "src/keys.rs: PreparedIncomingViewingKey / PreparedEphemeralPublicKey; src/spec.rs")],
  ["batch::try_compact_note_decryption"])
