verus! {
pub mod fmt {
    use vstd::prelude::*;
    verus! {
    /// std::fmt: arguments have a text, and to_string gives it (an implementation of Display that fails makes it panic)
    #[verifier::external_body]
    pub struct Arguments { a: String }
    impl Arguments {
        pub uninterp spec fn view(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    }
    }
}
} // verus!
