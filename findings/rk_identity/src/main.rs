//! A bundle whose only action has the identity as its randomized validating
//! key: before the repair, adding it to a batch panicked.
use nonempty::NonEmpty;
use orchard::bundle::{Authorized, BatchValidator, Flags};
use orchard::note::{ExtractedNoteCommitment, Nullifier, TransmittedNoteCiphertext};
use orchard::primitives::redpallas::{SpendAuth, VerificationKey};
use orchard::value::ValueCommitment;
use orchard::{Action, Anchor, Bundle, Proof};

fn main() {
    let z = [0u8; 32];
    let a = Action::from_parts(
        Nullifier::from_bytes(&z).unwrap(),
        VerificationKey::<SpendAuth>::try_from(z).unwrap(),
        ExtractedNoteCommitment::from_bytes(&z).unwrap(),
        TransmittedNoteCiphertext { epk_bytes: z, enc_ciphertext: [0; 580], out_ciphertext: [0; 80] },
        ValueCommitment::from_bytes(&z).unwrap(),
        [0u8; 64].into(),
    );
    let b = Bundle::<Authorized, i64>::from_parts(
        NonEmpty::new(a),
        Flags::ENABLED,
        0,
        Anchor::from_bytes(z).unwrap(),
        Authorized::from_parts(Proof::new(vec![0; 100]), [0u8; 64].into()),
    );
    BatchValidator::new().add_bundle(&b, [0; 32]);
    println!("added without panicking");
}
