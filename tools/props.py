#!/usr/bin/env python3
"""Writes properties.jsonl (edit here, then run)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, observe=None, over=("inputs",), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "A built bundle's value balance is exact and opens its commitments",
  "Whenever the builder produces a bundle, its declared value balance is exactly the sum of the spent values minus the sum of the output values, or building fails with an overflow error. The sum of the actions' net value commitments minus the commitment to the balance is the validating key under which the bundle's finished binding signature verifies.",
  "all spend and output values, all keys, all randomness, for up to two spends and two outputs, every bundle type",
  "the tests build a handful of fixed-value bundles; the equation has to hold for every value and every commitment trapdoor, including at the limits of the value range",
  ["src/builder.rs", "src/value.rs", "src/bundle.rs"],
  [("balance and trapdoor sum", "src/builder.rs: bundle"), ("net value of an action", "src/builder.rs: ActionInfo::value_sum"), ("binding signature", "src/builder.rs: InProgress::prepare / finalize")],
  ["Bundle::value_balance", "Bundle::binding_validating_key", "Authorized::binding_signature"])
p("C02", "Value arithmetic is exact or reports overflow",
  "Differences and sums of note values are computed exactly: the result is the mathematical value when it lies within plus or minus (2^64-1), and overflow is reported otherwise. Conversion to a signed 64-bit balance succeeds exactly for the values that fit and keeps them.",
  "all 64-bit note values, all representable sums, sequences of up to three summands",
  "unit tests sample values; the limits of i64, u64 and the intermediate range matter exactly at single points",
  ["src/value.rs"],
  [("NoteValue subtraction", "src/value.rs: impl Sub for NoteValue"), ("ValueSum addition and Sum", "src/value.rs: impl Add/Sum for ValueSum"), ("conversion", "src/value.rs: TryFrom<ValueSum> for i64")],
  ["ValueSum", "i64::try_from"])
p("C03", "Value commitments are homomorphic and open to their value",
  "A value commitment to v with trapdoor r equals [v]V + [r]R for every signed v of magnitude below 2^64; sums and differences of commitments and of trapdoors commit to the sums and differences of values. A bundle's binding validating key is the sum of its actions' commitments minus the trapdoor-free commitment to its declared balance.",
  "all values, all trapdoors, all commitments, all signed 64-bit balances; two actions",
  "a property test samples random values; sign handling and extreme values are not sampled reliably",
  ["src/value.rs", "src/bundle.rs"],
  [("derive", "src/value.rs: ValueCommitment::derive"), ("sums", "src/value.rs: Add/Sub/Sum"), ("binding key", "src/bundle.rs: binding_validating_key")],
  ["ValueCommitment::to_bytes", "Bundle::binding_validating_key"])
p("C07", "Batch validation accepts exactly the bundles that are valid on their own",
  "A batch is accepted exactly when, for every bundle added, the proof is valid for that bundle's public inputs, every spend authorization signature is valid under that action's randomized key for the sighash given with that bundle, and the binding signature is valid under the bundle's binding key for that sighash. Adding or validating never panics, whatever the (parseable) content of the bundles, and the empty batch is valid.",
  "all public data, all proofs and signatures, all sighashes; batches of two one-action bundles and of one two-action bundle; every subset of corrupted components",
  "no test adds an invalid bundle to a batch, nor exceptional points such as an identity key",
  ["src/bundle/batch.rs", "src/bundle.rs", "src/circuit.rs", "src/primitives/redpallas.rs"],
  [("collection of signatures and proofs", "src/bundle/batch.rs: BatchValidator::add_bundle"), ("decision", "src/bundle/batch.rs: validate"), ("public inputs", "src/circuit.rs: Instance::to_halo2_instance")],
  ["BatchValidator::validate"], over=("inputs", "histories"))
p("C08", "The transaction id digest commits to all non-authorizing data",
  "The transaction id digest of a bundle is the ZIP 244 digest of its effecting data: nullifiers, commitments, ephemeral keys, all parts of the ciphertexts, net value commitments, randomized keys in action order, and flags, balance and anchor. It depends on nothing else, and the digest of an absent bundle is the personalised hash of the empty string.",
  "all contents of bundles of one and of two actions, all flags, balances and anchors",
  "tests compare the digest of a few bundles; a field left out, reordered or cut short for some inputs is not sampled",
  ["src/bundle/commitments.rs", "src/bundle.rs"],
  [("digest", "src/bundle/commitments.rs: hash_bundle_txid_data"), ("absent bundle", "src/bundle/commitments.rs: hash_bundle_txid_empty")],
  ["Bundle::commitment"])
p("C09", "The authorizing digest commits to proof and all signatures",
  "The authorizing-data digest of a bundle is the ZIP 244 digest of the proof bytes, then each action's spend authorization signature in order, then the binding signature. It depends on all of these bytes, and the digest of an absent bundle is the personalised hash of the empty string.",
  "all signature and proof bytes (proofs of up to 96 bytes), two actions",
  "no test checks it against the specification for arbitrary content",
  ["src/bundle/commitments.rs", "src/bundle.rs"],
  [("digest", "src/bundle/commitments.rs: hash_bundle_auth_data")],
  ["Bundle::authorizing_commitment"])
p("C10", "Flags decode strictly and proofs are checked against all public inputs",
  "A flags byte decodes exactly when its reserved bits are zero, to the flags it encodes, and re-encodes to itself. A bundle's proof is verified against the public inputs of all of its actions in order: anchor, net value commitment, nullifier, randomized key, commitment, and both enable flags of that bundle, exceptional points being represented as (0, 0).",
  "all flag bytes; all public data of two-action bundles, all 18 public inputs corrupted in every combination",
  "tests only verify honest proofs; a public input left out or taken from another field is not noticed by honest bundles, where verifier and prover share the code",
  ["src/bundle.rs", "src/circuit.rs", "src/value.rs"],
  [("flags", "src/bundle.rs: Flags::from_byte / to_byte"), ("instances", "src/bundle.rs: to_instances; src/circuit.rs: to_halo2_instance"), ("verification", "src/circuit.rs: Proof::verify")],
  ["Flags::from_byte", "Bundle::verify_proof"])
p("C26", "Re-authorizing a bundle changes nothing but the authorization",
  "Mapping a bundle's authorization keeps all effecting data, action order, flags, anchor and balance, and hands each action's own authorization to the caller once, in order. The fallible variant succeeds exactly when every step succeeds and otherwise returns the first error; mapping the balance changes only the balance.",
  "all bundle contents of two actions, every failure position",
  "tests never fail a mapping and do not compare the untouched fields",
  ["src/bundle.rs", "src/action.rs"],
  [("map", "src/bundle.rs: map_authorization"), ("fallible map", "src/bundle.rs: try_map_authorization"), ("balance", "src/bundle.rs: try_map_value_balance"), ("action", "src/action.rs: map / try_map")],
  ["Bundle accessors"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")) else None
P.sort(key=lambda x: x["id"])
for x in P:
    assert len(x["title"]) <= 80, x["title"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
