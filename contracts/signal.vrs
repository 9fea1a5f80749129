use vstd::prelude::*;

verus! {

//@ type src/signal.rs Signal derive=Structural
//@ type src/signal.rs SignalSet derive=Structural
//@ const src/signal.rs NUM_SIGNALS

pub open spec fn num(s: Signal) -> u8 {
    match s { Signal::Break => 0, Signal::Continue => 1, Signal::Interrupt => 2, Signal::Resize => 3, Signal::Suspend => 4, Signal::Quit => 5 }
}
pub open spec fn bit(s: Signal) -> u8 { 1u8 << num(s) }

impl SignalSet {
    /// only the six signals are ever in a set
    pub open spec fn wf(self) -> bool { self.0 < 64 }
    pub open spec fn has(self, s: Signal) -> bool { self.0 & bit(s) != 0 }
}

pub proof fn lemma_bits(a: u8, b: u8)
    ensures
        forall|s: Signal| #[trigger] bit(s) < 64 && bit(s) != 0,
        forall|s: Signal| ((a | b) & #[trigger] bit(s) != 0) == (a & bit(s) != 0 || b & bit(s) != 0),
        forall|s: Signal| ((a & b) & #[trigger] bit(s) != 0) == (a & bit(s) != 0 && b & bit(s) != 0),
        forall|s: Signal| ((a & !b) & #[trigger] bit(s) != 0) == (a & bit(s) != 0 && !(b & bit(s) != 0)),
        forall|s: Signal| ((a ^ b) & #[trigger] bit(s) != 0) == ((a & bit(s) != 0) != (b & bit(s) != 0)),
        forall|s: Signal| ((!a & 63) & #[trigger] bit(s) != 0) == !(a & bit(s) != 0),
        forall|s: Signal, t: Signal| (#[trigger] bit(s) & #[trigger] bit(t) != 0) == (s == t),
        forall|s: Signal| 63u8 & #[trigger] bit(s) != 0,
        forall|s: Signal| 0u8 & #[trigger] bit(s) == 0,
        a < 64 && b < 64 ==> (a | b) < 64 && (a ^ b) < 64,
        a < 64 ==> (a & b) < 64,
        (!a & 63) < 64,
        (1u8 << 6u8) == 64,
{
    assert forall|s: Signal| #[trigger] bit(s) == 1u8 || bit(s) == 2u8 || bit(s) == 4u8 || bit(s) == 8u8 || bit(s) == 16u8 || bit(s) == 32u8 by {
        assert((1u8 << 0u8) == 1 && (1u8 << 1u8) == 2 && (1u8 << 2u8) == 4 && (1u8 << 3u8) == 8 && (1u8 << 4u8) == 16 && (1u8 << 5u8) == 32) by (bit_vector);
    }
    assert forall|s: Signal| ((a | b) & #[trigger] bit(s) != 0) == (a & bit(s) != 0 || b & bit(s) != 0) by {
        let x = bit(s);
        assert(((a | b) & x != 0) == (a & x != 0 || b & x != 0)) by (bit_vector);
    }
    assert forall|s: Signal| ((a & b) & #[trigger] bit(s) != 0) == (a & bit(s) != 0 && b & bit(s) != 0) by {
        let x = bit(s);
        assert(((a & b) & x != 0) == (a & x != 0 && b & x != 0)) by (bit_vector)
            requires x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32;
    }
    assert forall|s: Signal| ((a & !b) & #[trigger] bit(s) != 0) == (a & bit(s) != 0 && !(b & bit(s) != 0)) by {
        let x = bit(s);
        assert(((a & !b) & x != 0) == (a & x != 0 && !(b & x != 0))) by (bit_vector)
            requires x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32;
    }
    assert forall|s: Signal| ((a ^ b) & #[trigger] bit(s) != 0) == ((a & bit(s) != 0) != (b & bit(s) != 0)) by {
        let x = bit(s);
        assert(((a ^ b) & x != 0) == ((a & x != 0) != (b & x != 0))) by (bit_vector)
            requires x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32;
    }
    assert forall|s: Signal| ((!a & 63) & #[trigger] bit(s) != 0) == !(a & bit(s) != 0) by {
        let x = bit(s);
        assert(((!a & 63) & x != 0) == !(a & x != 0)) by (bit_vector)
            requires x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32;
    }
    assert forall|s: Signal, t: Signal| (#[trigger] bit(s) & #[trigger] bit(t) != 0) == (s == t) by {
        let x = bit(s);
        let y = bit(t);
        assert((x & y != 0) == (x == y)) by (bit_vector)
            requires x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32, y == 1 || y == 2 || y == 4 || y == 8 || y == 16 || y == 32;
        assert((1u8 << 0u8) == 1 && (1u8 << 1u8) == 2 && (1u8 << 2u8) == 4 && (1u8 << 3u8) == 8 && (1u8 << 4u8) == 16 && (1u8 << 5u8) == 32) by (bit_vector);
    }
    assert forall|s: Signal| 63u8 & #[trigger] bit(s) != 0 by {
        let x = bit(s);
        assert(63u8 & x != 0) by (bit_vector) requires x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32;
    }
    assert forall|s: Signal| 0u8 & #[trigger] bit(s) == 0 by {
        let x = bit(s);
        assert(0u8 & x == 0) by (bit_vector);
    }
    assert(a < 64 && b < 64 ==> (a | b) < 64 && (a ^ b) < 64) by (bit_vector);
    assert(a < 64 ==> (a & b) < 64) by (bit_vector);
    assert((!a & 63) < 64) by (bit_vector);
    assert((1u8 << 6u8) == 64) by (bit_vector);
}

/// sets with the same members are equal values
pub proof fn lemma_ext(a: SignalSet, b: SignalSet)
    requires a.wf(), b.wf(), forall|s: Signal| a.has(s) == b.has(s)
    ensures a == b
{
    let (x, y) = (a.0, b.0);
    assert(a.has(Signal::Break) == b.has(Signal::Break) && a.has(Signal::Continue) == b.has(Signal::Continue) && a.has(Signal::Interrupt) == b.has(Signal::Interrupt)
        && a.has(Signal::Resize) == b.has(Signal::Resize) && a.has(Signal::Suspend) == b.has(Signal::Suspend) && a.has(Signal::Quit) == b.has(Signal::Quit));
    assert(x == y) by (bit_vector)
        requires x < 64, y < 64,
            (x & (1u8 << 0u8) != 0) == (y & (1u8 << 0u8) != 0), (x & (1u8 << 1u8) != 0) == (y & (1u8 << 1u8) != 0),
            (x & (1u8 << 2u8) != 0) == (y & (1u8 << 2u8) != 0), (x & (1u8 << 3u8) != 0) == (y & (1u8 << 3u8) != 0),
            (x & (1u8 << 4u8) != 0) == (y & (1u8 << 4u8) != 0), (x & (1u8 << 5u8) != 0) == (y & (1u8 << 5u8) != 0);
}
pub proof fn lemma_subset(a: u8, b: u8)
    requires a < 64, b < 64
    ensures (a & b == b) == (forall|s: Signal| b & #[trigger] bit(s) != 0 ==> a & bit(s) != 0),
        (a & b != 0) == (exists|s: Signal| b & #[trigger] bit(s) != 0 && a & bit(s) != 0),
        (a == 0) == (forall|s: Signal| a & #[trigger] bit(s) == 0),
{
    lemma_bits(a, b);
    let (i, j) = (SignalSet((a & b) as u8), SignalSet(b));
    if forall|s: Signal| b & #[trigger] bit(s) != 0 ==> a & bit(s) != 0 {
        assert forall|s: Signal| i.has(s) == j.has(s) by { assert(bit(s) < 64); }
        lemma_ext(i, j);
    }
    if a & b == b {
        assert forall|s: Signal| b & #[trigger] bit(s) != 0 implies a & bit(s) != 0 by {}
    }
    let z = SignalSet(0);
    if !(exists|s: Signal| b & #[trigger] bit(s) != 0 && a & bit(s) != 0) {
        assert forall|s: Signal| i.has(s) == z.has(s) by { assert(bit(s) < 64); }
        lemma_ext(i, z);
    }
    if forall|s: Signal| a & #[trigger] bit(s) == 0 {
        assert forall|s: Signal| SignalSet(a).has(s) == z.has(s) by { assert(bit(s) < 64); }
        lemma_ext(SignalSet(a), z);
    }
}

//@ fn src/signal.rs Signal::as_bit
    ensures r == bit(*self), r < 64, r != 0,
//@ start
    proof { lemma_bits(0, 0); assert(bit(*self) < 64); }
//@ end
//@ fn src/signal.rs Signal::all_bits
    ensures r == 63,
//@ start
    proof { lemma_bits(0, 0); }
//@ end

//@ fn src/signal.rs SignalSet::new
    ensures r.wf(), forall|s: Signal| !#[trigger] r.has(s),
//@ start
    proof { lemma_bits(0, 0); }
//@ end
//@ fn src/signal.rs SignalSet::all
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s),
//@ start
    proof { lemma_bits(0, 0); }
//@ end
//@ fn src/signal.rs SignalSet::contains
    ensures r == self.has(sig),
//@ end
//@ fn src/signal.rs SignalSet::contains_all
    requires self.wf(), other.wf(),
    ensures r == (forall|s: Signal| #[trigger] other.has(s) ==> self.has(s)),
//@ start
    proof { lemma_subset(self.0, other.0); assert(forall|s: Signal| other.has(s) == (other.0 & #[trigger] bit(s) != 0)); }
//@ end
//@ fn src/signal.rs SignalSet::intersects
    requires self.wf(), other.wf(),
    ensures r == (exists|s: Signal| #[trigger] other.has(s) && self.has(s)),
//@ start
    proof { lemma_subset(self.0, other.0); assert(forall|s: Signal| other.has(s) == (other.0 & #[trigger] bit(s) != 0)); }
//@ end
//@ fn src/signal.rs SignalSet::is_empty
    requires self.wf(),
    ensures r == (forall|s: Signal| !#[trigger] self.has(s)),
//@ start
    proof { lemma_subset(self.0, 0); assert(forall|s: Signal| self.has(s) == (self.0 & #[trigger] bit(s) != 0)); }
//@ end
//@ fn src/signal.rs SignalSet::insert
    requires old(self).wf(),
    ensures final(self).wf(), forall|s: Signal| #[trigger] final(self).has(s) == (old(self).has(s) || s == sig),
//@ start
    proof { lemma_bits(self.0, bit(sig)); }
//@ end
//@ fn src/signal.rs SignalSet::remove
    requires old(self).wf(),
    ensures final(self).wf(), forall|s: Signal| #[trigger] final(self).has(s) == (old(self).has(s) && s != sig),
//@ start
    proof { lemma_bits(self.0, bit(sig)); lemma_bits(self.0, !bit(sig)); }
//@ end
//@ fn src/signal.rs SignalSet::set
    requires old(self).wf(),
    ensures final(self).wf(), forall|s: Signal| #[trigger] final(self).has(s) == (if s == sig { set } else { old(self).has(s) }),
//@ end
//@ fn src/signal.rs SignalSet::difference
    requires self.wf(), other.wf(),
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (self.has(s) && !other.has(s)),
//@ start
    proof { lemma_bits(self.0, other.0); lemma_bits(self.0, !other.0); }
//@ end
//@ fn src/signal.rs SignalSet::symmetric_difference
    requires self.wf(), other.wf(),
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (self.has(s) != other.has(s)),
//@ start
    proof { lemma_bits(self.0, other.0); }
//@ end
//@ fn src/signal.rs SignalSet::intersection
    requires self.wf(), other.wf(),
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (self.has(s) && other.has(s)),
//@ start
    proof { lemma_bits(self.0, other.0); }
//@ end
//@ fn src/signal.rs SignalSet::union
    requires self.wf(), other.wf(),
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (self.has(s) || other.has(s)),
//@ start
    proof { lemma_bits(self.0, other.0); }
//@ end
//@ fn src/signal.rs SignalSet::inverse
    requires self.wf(),
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == !self.has(s),
//@ start
    proof { lemma_bits(self.0, 0); }
//@ end

//@ fn src/signal.rs From for SignalSet::from
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (s == sig),
//@ end
//@ fn src/signal.rs BitOr for Signal::bitor
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (s == self || s == rhs),
//@ end
//@ fn src/signal.rs Not for Signal::not
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (s != self),
//@ rewrite ! SignalSet :: from ( self ) ==> SignalSet::from(self).not()
//@ end

//@ fn src/signal.rs BitAnd for SignalSet::bitand
    requires self.wf(), rhs.wf(),
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (self.has(s) && rhs.has(s)),
//@ end
//@ fn src/signal.rs BitOr for SignalSet::bitor
    requires self.wf(), rhs.wf(),
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (self.has(s) || rhs.has(s)),
//@ end
//@ fn src/signal.rs BitXor for SignalSet::bitxor
    requires self.wf(), rhs.wf(),
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (self.has(s) != rhs.has(s)),
//@ end
//@ fn src/signal.rs Sub for SignalSet::sub
    requires self.wf(), rhs.wf(),
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == (self.has(s) && !rhs.has(s)),
//@ end
//@ fn src/signal.rs Not for SignalSet::not
    requires self.wf(),
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == !self.has(s),
//@ end
//@ fn src/signal.rs BitAndAssign for SignalSet::bitand_assign
    requires old(self).wf(), rhs.wf(),
    ensures final(self).wf(), forall|s: Signal| #[trigger] final(self).has(s) == (old(self).has(s) && rhs.has(s)),
//@ end
//@ fn src/signal.rs BitOrAssign for SignalSet::bitor_assign
    requires old(self).wf(), rhs.wf(),
    ensures final(self).wf(), forall|s: Signal| #[trigger] final(self).has(s) == (old(self).has(s) || rhs.has(s)),
//@ end
//@ fn src/signal.rs BitXorAssign for SignalSet::bitxor_assign
    requires old(self).wf(), rhs.wf(),
    ensures final(self).wf(), forall|s: Signal| #[trigger] final(self).has(s) == (old(self).has(s) != rhs.has(s)),
//@ end
//@ fn src/signal.rs SubAssign for SignalSet::sub_assign
    requires old(self).wf(), rhs.wf(),
    ensures final(self).wf(), forall|s: Signal| #[trigger] final(self).has(s) == (old(self).has(s) && !rhs.has(s)),
//@ end

// Extend and FromIterator are generic in the iterator; they are taken at Vec<Signal> (their bodies
// know nothing of the iterator but that it yields signals)
pub open spec fn among(v: Seq<Signal>, s: Signal) -> bool { exists|i: int| 0 <= i < v.len() && v[i] == s }
pub proof fn lemma_among(v: Seq<Signal>, n: int)
    requires 0 <= n < v.len(),
    ensures forall|s: Signal| #[trigger] among(v.take(n + 1), s) == (among(v.take(n), s) || s == v[n]), v.take(v.len() as int) == v,
        forall|s: Signal| !#[trigger] among(v.take(0), s),
{
    assert(v.take(v.len() as int) =~= v);
    assert forall|s: Signal| #[trigger] among(v.take(n + 1), s) == (among(v.take(n), s) || s == v[n]) by {
        if among(v.take(n), s) { let i = choose|i: int| 0 <= i < n && v.take(n)[i] == s; assert(v.take(n + 1)[i] == s); }
        if s == v[n] { assert(v.take(n + 1)[n] == s); }
    }
}
//@ fn src/signal.rs Extend for SignalSet::extend
    requires old(self).wf(),
    ensures final(self).wf(), forall|s: Signal| #[trigger] final(self).has(s) == (old(self).has(s) || among(iter@, s)),
//@ sigrewrite < I : IntoIterator < Item = Signal > > ( & mut self , $x : I ) ==> (&mut self, $x: Vec<Signal>)
//@ start
    let ghost v = iter@;
    assert(v.take(v.len() as int) =~= v);
//@ loop 0 kind=for iter=it
    invariant
        self.wf(), it.seq() == v, v == iter@, v.take(v.len() as int) == v,
        forall|s: Signal| #[trigger] self.has(s) == (old(self).has(s) || among(v.take(it.index@ as int), s)),
//@ loopbody 0
            proof { lemma_among(v, it.index@ as int); }
//@ end
//@ fn src/signal.rs FromIterator for SignalSet::from_iter
    ensures r.wf(), forall|s: Signal| #[trigger] r.has(s) == among(iter@, s),
//@ sigrewrite < I : IntoIterator < Item = Signal > > ( $x : I ) ==> ($x: Vec<Signal>)
//@ end

} // verus!
fn main() {}
