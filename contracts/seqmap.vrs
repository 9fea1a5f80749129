/// the terminal's key sequences; nothing about them matters for output
#[verifier::external_body]
pub struct SeqMap { m: u8 }
