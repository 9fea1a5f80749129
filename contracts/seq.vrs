use vstd::prelude::*;
use std::mem::replace;

verus! {

// ---------------------------------------------------------------------------
// keys: any type seen as a string; the text of a key does not change by itself
// ---------------------------------------------------------------------------
pub trait StrKey {
    spec fn txt(&self) -> Seq<char>;
    fn as_ref(&self) -> (r: &str) ensures r@ == self.txt();
}

/// std: strings are ordered by their characters
pub open spec fn lt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    b.len() > 0 && (a.len() == 0 || (a[0] as u32) < (b[0] as u32) || a[0] == b[0] && lt(a.skip(1), b.skip(1)))
}
pub open spec fn le(a: Seq<char>, b: Seq<char>) -> bool { a == b || lt(a, b) }
/// `s` begins with `k`
pub open spec fn pre(k: Seq<char>, s: Seq<char>) -> bool { k.len() <= s.len() && s.take(k.len() as int) == k }

pub proof fn lt_irrefl(a: Seq<char>) ensures !lt(a, a) decreases a.len() { if a.len() > 0 { lt_irrefl(a.skip(1)); } }
pub proof fn lt_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires lt(a, b), lt(b, c) ensures lt(a, c) decreases a.len()
{ if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { lt_trans(a.skip(1), b.skip(1), c.skip(1)); } }
pub proof fn lt_total(a: Seq<char>, b: Seq<char>)
    ensures a == b || lt(a, b) || lt(b, a), !(lt(a, b) && lt(b, a)), !(lt(a, b) && a == b)
    decreases a.len()
{
    lt_irrefl(a);
    if lt(a, b) && lt(b, a) { lt_trans(a, b, a); }
    if a.len() > 0 && b.len() > 0 {
        lt_total(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a[i] == a.skip(1)[i - 1]); assert(b[i] == b.skip(1)[i - 1]); } }
            assert(a.len() == a.skip(1).len() + 1);
            assert(a =~= b);
        }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
/// whatever begins with k comes after it
pub proof fn lt_prefix(k: Seq<char>, s: Seq<char>)
    requires pre(k, s), k != s ensures lt(k, s) decreases k.len()
{
    if k.len() == s.len() { assert(s.take(k.len() as int) =~= s); }
    if k.len() > 0 {
        assert(k[0] == s.take(k.len() as int)[0]);
        let (k1, s1) = (k.skip(1), s.skip(1));
        assert(s1.take(k1.len() as int) =~= k1) by {
            assert forall|i: int| 0 <= i < k1.len() implies s1[i] == k1[i] by { assert(k[i + 1] == s.take(k.len() as int)[i + 1]); }
        }
        if k1 == s1 { assert(k.len() == s.len()); }
        lt_prefix(k1, s1);
    }
}
/// what lies between k and something that begins with k begins with k
pub proof fn between(k: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires lt(k, b), lt(b, c), pre(k, c) ensures pre(k, b) decreases k.len()
{
    if k.len() == 0 { assert(b.take(0) =~= k); }
    else {
        assert(k[0] == c.take(k.len() as int)[0]);
        let (k1, b1, c1) = (k.skip(1), b.skip(1), c.skip(1));
        assert(c1.take(k1.len() as int) =~= k1) by {
            assert forall|i: int| 0 <= i < k1.len() implies c1[i] == k1[i] by { assert(k[i + 1] == c.take(k.len() as int)[i + 1]); }
        }
        between(k1, b1, c1);
        assert(b.take(k.len() as int) =~= k) by {
            assert forall|i: int| 0 <= i < k.len() implies b[i] == k[i] by { if i > 0 { assert(b1.take(k1.len() as int)[i - 1] == k1[i - 1]); } }
        }
    }
}

// ---------------------------------------------------------------------------
// sorted vectors of pairs as maps
// ---------------------------------------------------------------------------
pub open spec fn key<K: StrKey, V>(s: Seq<(K, V)>, i: int) -> Seq<char> { s[i].0.txt() }
pub open spec fn sorted<K: StrKey, V>(s: Seq<(K, V)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] key(s, i), #[trigger] key(s, j))
}
pub open spec fn at<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>, i: int) -> bool { 0 <= i < s.len() && key(s, i) == k }
pub open spec fn holds<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>) -> bool { exists|i: int| at(s, k, i) }
/// the value a sorted vector holds for k
pub open spec fn val<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>) -> Option<V> {
    if holds(s, k) { Some(s[choose|i: int| at(s, k, i)].1) } else { None }
}
/// the place where k belongs: all before are less, all from there on greater
pub open spec fn gap<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>, n: int) -> bool {
    0 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> lt(#[trigger] key(s, i), k)) && (forall|i: int| n <= i < s.len() ==> lt(k, #[trigger] key(s, i)))
}
pub proof fn lemma_val<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>)
    requires sorted(s)
    ensures forall|i: int| #[trigger] at(s, k, i) ==> holds(s, k) && val(s, k) == Some(s[i].1),
        forall|n: int| #[trigger] gap(s, k, n) ==> !holds(s, k) && val(s, k) is None,
        forall|i: int, j: int| #[trigger] at(s, k, i) && #[trigger] at(s, k, j) ==> i == j,
{
    assert forall|i: int, j: int| #[trigger] at(s, k, i) && #[trigger] at(s, k, j) implies i == j by {
        lt_irrefl(k);
        if i < j { assert(lt(key(s, i), key(s, j))); }
        if j < i { assert(lt(key(s, j), key(s, i))); }
    }
    assert forall|n: int| #[trigger] gap(s, k, n) implies !holds(s, k) by {
        if holds(s, k) {
            let i = choose|i: int| at(s, k, i);
            lt_irrefl(k);
            if i < n { assert(lt(key(s, i), k)); } else { assert(lt(k, key(s, i))); }
        }
    }
}
/// a new pair in its place
pub proof fn lemma_insert<K: StrKey, V>(s: Seq<(K, V)>, n: int, e: (K, V))
    requires sorted(s), gap(s, e.0.txt(), n)
    ensures sorted(s.insert(n, e)), val(s.insert(n, e), e.0.txt()) == Some(e.1),
        forall|k: Seq<char>| k != e.0.txt() ==> #[trigger] val(s.insert(n, e), k) == val(s, k),
{
    let t = s.insert(n, e);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt(#[trigger] key(t, i), #[trigger] key(t, j)) by {
        if i < n && j < n { assert(key(t, i) == key(s, i) && key(t, j) == key(s, j)); }
        if i < n && j == n { assert(key(t, i) == key(s, i)); }
        if i < n && j > n { assert(key(t, i) == key(s, i) && key(t, j) == key(s, j - 1)); }
        if i == n { assert(key(t, j) == key(s, j - 1)); }
        if i > n { assert(key(t, i) == key(s, i - 1) && key(t, j) == key(s, j - 1)); }
    }
    assert(at(t, e.0.txt(), n));
    lemma_val(t, e.0.txt());
    assert forall|k: Seq<char>| k != e.0.txt() implies #[trigger] val(t, k) == val(s, k) by {
        lemma_val(s, k); lemma_val(t, k);
        if holds(s, k) { let i = choose|i: int| at(s, k, i); if i < n { assert(at(t, k, i)); } else { assert(at(t, k, i + 1)); } }
        if holds(t, k) { let i = choose|i: int| at(t, k, i); if i < n { assert(at(s, k, i)); } else { assert(i != n); assert(at(s, k, i - 1)); } }
    }
}
/// a pair replaced by one with the same text as key
pub proof fn lemma_update<K: StrKey, V>(s: Seq<(K, V)>, n: int, e: (K, V))
    requires sorted(s), at(s, e.0.txt(), n)
    ensures sorted(s.update(n, e)), val(s, e.0.txt()) == Some(s[n].1), val(s.update(n, e), e.0.txt()) == Some(e.1),
        forall|k: Seq<char>| k != e.0.txt() ==> #[trigger] val(s.update(n, e), k) == val(s, k),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] key(s.update(n, e), i) == key(s, i),
{
    let t = s.update(n, e);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] key(t, i) == key(s, i) by {}
    assert(sorted(t));
    lemma_val(s, e.0.txt()); lemma_val(t, e.0.txt());
    assert(at(t, e.0.txt(), n));
    assert forall|k: Seq<char>| k != e.0.txt() implies #[trigger] val(t, k) == val(s, k) by {
        lemma_val(s, k); lemma_val(t, k);
        if holds(s, k) { let i = choose|i: int| at(s, k, i); assert(at(t, k, i)); }
        if holds(t, k) { let i = choose|i: int| at(t, k, i); assert(at(s, k, i)); }
    }
}
/// a pair taken out
pub proof fn lemma_remove<K: StrKey, V>(s: Seq<(K, V)>, n: int)
    requires sorted(s), 0 <= n < s.len()
    ensures sorted(s.remove(n)), val(s.remove(n), key(s, n)) is None, val(s, key(s, n)) == Some(s[n].1),
        forall|k: Seq<char>| k != key(s, n) ==> #[trigger] val(s.remove(n), k) == val(s, k),
{
    let t = s.remove(n);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] key(t, i) == key(s, if i < n { i } else { i + 1 }) by {}
    assert(sorted(t));
    assert(at(s, key(s, n), n)); lemma_val(s, key(s, n));
    let q = key(s, n);
    if holds(t, q) { let i = choose|i: int| at(t, q, i); let j = if i < n { i } else { i + 1 }; assert(at(s, q, j)); }
    assert forall|k: Seq<char>| k != q implies #[trigger] val(t, k) == val(s, k) by {
        lemma_val(s, k); lemma_val(t, k);
        if holds(s, k) { let i = choose|i: int| at(s, k, i); if i < n { assert(at(t, k, i)); } else { assert(i != n); assert(at(t, k, i - 1)); } }
        if holds(t, k) { let i = choose|i: int| at(t, k, i); let j = if i < n { i } else { i + 1 }; assert(at(s, k, j)); }
    }
}

// ---------------------------------------------------------------------------
// std
// ---------------------------------------------------------------------------
pub assume_specification<T> [std::mem::replace] (d: &mut T, x: T) -> (r: T)
    ensures r == *old(d), *final(d) == x;
/// slice::binary_search_by_key with the key's text; a sorted vector of two pairs or more has keys
/// of non-zero size, and such a vector has at most isize::MAX elements
#[verifier::external_body]
pub fn search__<K: StrKey, V>(s: &Vec<(K, V)>, k: &str) -> (r: Result<usize, usize>)
    requires sorted(s@)
    ensures r matches Ok(n) ==> at(s@, k@, n as int), r matches Err(n) ==> gap(s@, k@, n as int), s@.len() <= isize::MAX,
{ unimplemented!() }
/// a hint for the capacity, of no consequence
#[verifier::external_body]
pub fn size_hint__<T>(v: &Vec<T>) -> usize { unimplemented!() }
/// str::starts_with
#[verifier::external_body]
pub fn starts_with__(s: &str, k: &str) -> (r: bool) ensures r == pre(k@, s@) { unimplemented!() }
/// Vec::get
#[verifier::external_body]
pub fn get__<T>(s: &Vec<T>, n: usize) -> (r: Option<&T>) ensures n < s@.len() ==> r == Some(&s@[n as int]), n >= s@.len() ==> r is None { unimplemented!() }

//@ rewrite AsRef < str > ==> StrKey
//@ rewrite $x! . sequences . binary_search_by_key ( & $k! , | & ( ref $a! , _ ) | & $a! . as_ref ( ) ) ==> search__(&$x.sequences, $k)
//@ rewrite $x! . sequences . get ( $n ) . map_or ( $d , | & ( ref $a! , _ ) | $e ) ==> (match get__(&$x.sequences, $n) { Some(e__) => { let $a = &e__.0; $e } None => $d })
//@ rewrite $x! . sequences . get ( $n ) ==> get__(&$x.sequences, $n)
//@ rewrite $x! . as_ref ( ) . starts_with ( $k ) ==> starts_with__($x.as_ref(), $k)

//@ type src/sequence.rs SequenceMap keep=x
//@ type src/sequence.rs FindResult keep=x
//@ type src/sequence.rs OccupiedEntry
//@ type src/sequence.rs VacantEntry
//@ type src/sequence.rs Entry

impl<K: StrKey, V> SequenceMap<K, V> {
    pub open spec fn wf(self) -> bool { sorted(self.sequences@) }
    pub open spec fn val(self, k: Seq<char>) -> Option<V> { val(self.sequences@, k) }
    pub open spec fn has(self, k: Seq<char>) -> bool { holds(self.sequences@, k) }
}

//@ fn src/sequence.rs SequenceMap::new
    ensures r.sequences@.len() == 0, r.wf(), forall|k: Seq<char>| #[trigger] r.val(k) is None,
//@ end
//@ fn src/sequence.rs SequenceMap::with_capacity
    ensures r.sequences@.len() == 0, r.wf(), forall|k: Seq<char>| #[trigger] r.val(k) is None,
//@ end
//@ fn src/sequence.rs SequenceMap::sequences
    ensures r@ == self.sequences@,
//@ end
//@ fn src/sequence.rs SequenceMap::search
    requires self.wf(),
    ensures r matches Ok(n) ==> at(self.sequences@, key@, n as int), r matches Err(n) ==> gap(self.sequences@, key@, n as int), self.sequences@.len() <= isize::MAX,
//@ end
//@ fn src/sequence.rs SequenceMap::get params="key"
    requires self.wf(),
    ensures r matches Some(v) ==> self.val(key@) == Some(*v), r is None ==> self.val(key@) is None,
//@ start
    proof { lemma_val(self.sequences@, key@); }
//@ end
//@ fn src/sequence.rs SequenceMap::insert
    requires old(self).wf(),
    ensures final(self).wf(), r == old(self).val(key.txt()), final(self).val(key.txt()) == Some(value),
        forall|k: Seq<char>| k != key.txt() ==> #[trigger] final(self).val(k) == old(self).val(k),
//@ start
    proof {
        let s = self.sequences@;
        lemma_val(s, key.txt());
        assert forall|n: int| gap(s, key.txt(), n) implies sorted(#[trigger] s.insert(n, (key, value))) && val(s.insert(n, (key, value)), key.txt()) == Some(value)
            && forall|k: Seq<char>| k != key.txt() ==> #[trigger] val(s.insert(n, (key, value)), k) == val(s, k) by { lemma_insert(s, n, (key, value)); }
        assert forall|n: int| at(s, key.txt(), n) implies sorted(#[trigger] s.update(n, (key, value))) && val(s.update(n, (key, value)), key.txt()) == Some(value)
            && forall|k: Seq<char>| k != key.txt() ==> #[trigger] val(s.update(n, (key, value)), k) == val(s, k) by { lemma_update(s, n, (key, value)); }
    }
//@ end
//@ fn src/sequence.rs SequenceMap::remove
    requires old(self).wf(),
    ensures final(self).wf(), r is None <==> (old(self).val(key@) is None), final(self).val(key@) is None,
        r matches Some(e) ==> e.0.txt() == key@ && old(self).val(key@) == Some(e.1),
        forall|k: Seq<char>| k != key@ ==> #[trigger] final(self).val(k) == old(self).val(k),
//@ start
    proof {
        let s = self.sequences@;
        lemma_val(s, key@);
        assert forall|n: int| at(s, key@, n) implies sorted(#[trigger] s.remove(n)) && val(s.remove(n), key@) is None
            && forall|k: Seq<char>| k != key@ ==> #[trigger] val(s.remove(n), k) == val(s, k) by { lemma_remove(s, n); }
    }
//@ end
//@ fn src/sequence.rs SequenceMap::get_mut
    requires old(self).wf(),
    ensures r is None <==> (old(self).val(key@) is None), r is None ==> *final(self) == *old(self),
        r matches Some(v) ==> old(self).val(key@) == Some(*v) && final(self).wf() && final(self).val(key@) == Some(*final(v))
            && forall|k: Seq<char>| k != key@ ==> #[trigger] final(self).val(k) == old(self).val(k),
//@ start
    proof {
        let s = self.sequences@;
        lemma_val(s, key@);
        assert forall|n: int, e: (K, V)| at(s, key@, n) && e.0 == s[n].0 implies sorted(#[trigger] s.update(n, e)) && val(s.update(n, e), key@) == Some(e.1)
            && forall|k: Seq<char>| k != key@ ==> #[trigger] val(s.update(n, e), k) == val(s, k) by { lemma_update(s, n, e); }
    }
//@ end

/// longer sequences that begin with k
pub open spec fn longer<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] key(s, i) != k && pre(k, key(s, i)) }

/// only the next key has to be looked at
pub proof fn lemma_longer<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>)
    requires sorted(s)
    ensures forall|n: int| #[trigger] gap(s, k, n) ==> longer(s, k) == (n < s.len() && pre(k, key(s, n))),
        forall|n: int| #[trigger] at(s, k, n) ==> longer(s, k) == (n + 1 < s.len() && pre(k, key(s, n + 1))),
{
    lt_irrefl(k);
    assert forall|n: int| #[trigger] gap(s, k, n) implies longer(s, k) == (n < s.len() && pre(k, key(s, n))) by {
        if longer(s, k) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] key(s, i) != k && pre(k, key(s, i));
            lt_prefix(k, key(s, i));
            if i < n { assert(lt(key(s, i), k)); lt_trans(k, key(s, i), k); }
            if i > n { assert(lt(key(s, n), key(s, i))); between(k, key(s, n), key(s, i)); }
        }
        if n < s.len() && pre(k, key(s, n)) { assert(lt(k, key(s, n))); }
    }
    assert forall|n: int| #[trigger] at(s, k, n) implies longer(s, k) == (n + 1 < s.len() && pre(k, key(s, n + 1))) by {
        if longer(s, k) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] key(s, i) != k && pre(k, key(s, i));
            lt_prefix(k, key(s, i));
            if i < n { assert(lt(key(s, i), key(s, n))); lt_trans(k, key(s, i), k); }
            if i > n + 1 { assert(lt(key(s, n + 1), key(s, i))); assert(lt(key(s, n), key(s, n + 1))); between(k, key(s, n + 1), key(s, i)); }
        }
        if n + 1 < s.len() && pre(k, key(s, n + 1)) { assert(lt(key(s, n), key(s, n + 1))); }
    }
}

//@ fn src/sequence.rs SequenceMap::find
    requires self.wf(),
    ensures
        match r { // [C12]
            FindResult::Found(v) => self.val(key@) == Some(*v) && !longer(self.sequences@, key@),
            FindResult::Undecided(v) => self.val(key@) == Some(*v) && longer(self.sequences@, key@),
            FindResult::Incomplete => self.val(key@) is None && longer(self.sequences@, key@),
            FindResult::NotFound => self.val(key@) is None && !longer(self.sequences@, key@),
        },
//@ start
    proof { lemma_longer(self.sequences@, key@); lemma_val(self.sequences@, key@); assert(true as usize == 1 && false as usize == 0); }
//@ end

//@ fn src/sequence.rs FindResult::cloned
    ensures match self {
        FindResult::NotFound => r is NotFound, FindResult::Incomplete => r is Incomplete,
        FindResult::Undecided(v) => r is Undecided && cloned(*v, r->Undecided_0), FindResult::Found(v) => r is Found && cloned(*v, r->Found_0) },
//@ end

// ---------------------------------------------------------------------------
// entries
// ---------------------------------------------------------------------------
impl<'a, K: StrKey, V> Entry<'a, K, V> {
    /// the entry stands for k in the vector s
    pub open spec fn about(self, s: Seq<(K, V)>, k: Seq<char>) -> bool {
        match self {
            Entry::Occupied(e) => e.map.sequences@ == s && at(s, k, e.index as int),
            Entry::Vacant(e) => e.map.sequences@ == s && gap(s, k, e.index as int) && e.key.txt() == k,
        }
    }
}
//@ fn src/sequence.rs SequenceMap::entry
    requires old(self).wf(),
    ensures r.about(old(self).sequences@, key.txt()),
        match r { Entry::Occupied(e) => *final(self) == *final(e.map), Entry::Vacant(e) => *final(self) == *final(e.map) && e.key == key },
//@ end
//@ fn src/sequence.rs OccupiedEntry::key
    requires self.index < old(self.map).sequences@.len(),
    ensures *r == old(self.map).sequences@[self.index as int].0,
//@ end
//@ fn src/sequence.rs OccupiedEntry::get
    requires self.index < old(self.map).sequences@.len(),
    ensures *r == old(self.map).sequences@[self.index as int].1,
//@ end
//@ fn src/sequence.rs OccupiedEntry::get_mut
    requires old(self).index < old(self).map.sequences@.len(),
    ensures *r == old(self).map.sequences@[old(self).index as int].1, final(self).index == old(self).index,
        final(self).map.sequences@ == old(self).map.sequences@.update(old(self).index as int, (old(self).map.sequences@[old(self).index as int].0, *final(r))),
        *final(final(self).map) == *final(old(self).map),
//@ end
//@ fn src/sequence.rs OccupiedEntry::insert
    requires old(self).index < old(self).map.sequences@.len(),
    ensures r == old(self).map.sequences@[old(self).index as int].1, final(self).index == old(self).index,
        final(self).map.sequences@ == old(self).map.sequences@.update(old(self).index as int, (old(self).map.sequences@[old(self).index as int].0, value)),
        *final(final(self).map) == *final(old(self).map),
//@ end
//@ fn src/sequence.rs OccupiedEntry::into_mut
    requires self.index < old(self.map).sequences@.len(),
    ensures *r == old(self.map).sequences@[self.index as int].1,
        final(self.map).sequences@ == old(self.map).sequences@.update(self.index as int, (old(self.map).sequences@[self.index as int].0, *final(r))),
//@ end
//@ fn src/sequence.rs OccupiedEntry::remove
    requires self.index < old(self.map).sequences@.len(),
    ensures r == old(self.map).sequences@[self.index as int].1, final(self.map).sequences@ == old(self.map).sequences@.remove(self.index as int),
//@ end
//@ fn src/sequence.rs OccupiedEntry::remove_entry
    requires self.index < old(self.map).sequences@.len(),
    ensures r == old(self.map).sequences@[self.index as int], final(self.map).sequences@ == old(self.map).sequences@.remove(self.index as int),
//@ end
//@ fn src/sequence.rs VacantEntry::key
    ensures *r == self.key,
//@ end
//@ fn src/sequence.rs VacantEntry::into_key
    ensures r == self.key,
//@ end
//@ fn src/sequence.rs VacantEntry::insert
    requires self.index <= old(self.map).sequences@.len(),
    ensures *r == value,
        final(self.map).sequences@ == old(self.map).sequences@.insert(self.index as int, (self.key, *final(r))),
//@ end

// the entry as a whole; K: StrKey because its position is the one its text belongs to
//@ rewrite impl < 'a , K , V > Entry ==> impl<'a, K: StrKey, V> Entry
//@ fn src/sequence.rs Entry::key
    requires exists|s: Seq<(K, V)>, k: Seq<char>| self.about(s, k),
    ensures forall|s: Seq<(K, V)>, k: Seq<char>| self.about(s, k) ==> r.txt() == k,
//@ end

//@ fn src/sequence.rs Entry::or_insert
    requires exists|s: Seq<(K, V)>, k: Seq<char>| self.about(s, k),
    ensures match self {
        Entry::Occupied(e) => *r == e.map.sequences@[e.index as int].1
            && final(e.map).sequences@ == e.map.sequences@.update(e.index as int, (e.map.sequences@[e.index as int].0, *final(r))),
        Entry::Vacant(e) => *r == default && final(e.map).sequences@ == e.map.sequences@.insert(e.index as int, (e.key, *final(r))),
    },
//@ end
//@ fn src/sequence.rs Entry::or_insert_with
    requires exists|s: Seq<(K, V)>, k: Seq<char>| self.about(s, k), self is Vacant ==> default.requires(()),
    ensures match self {
        Entry::Occupied(e) => *r == e.map.sequences@[e.index as int].1
            && final(e.map).sequences@ == e.map.sequences@.update(e.index as int, (e.map.sequences@[e.index as int].0, *final(r))),
        Entry::Vacant(e) => default.ensures((), *r) && final(e.map).sequences@ == e.map.sequences@.insert(e.index as int, (e.key, *final(r))),
    },
//@ end
//@ fn src/sequence.rs Entry::and_modify
    requires exists|s: Seq<(K, V)>, k: Seq<char>| self.about(s, k),
        forall|v: &mut V| #[trigger] f.requires((v,)),
    ensures match (self, r) {
        (Entry::Vacant(e), Entry::Vacant(d)) => d == e,
        (Entry::Occupied(e), Entry::Occupied(d)) => d.index == e.index && *final(d.map) == *final(e.map)
            && exists|v: &mut V| #[trigger] f.ensures((v,), ()) && *v == e.map.sequences@[e.index as int].1
                && d.map.sequences@ == e.map.sequences@.update(e.index as int, (e.map.sequences@[e.index as int].0, *final(v))),
        _ => false,
    },
//@ end

/// an entry obtained for k: what its operations do to the map
pub proof fn c11_entry<K: StrKey, V>(s: Seq<(K, V)>, e: Entry<K, V>, k: Seq<char>, v: V)
    requires sorted(s), e.about(s, k)
    ensures match e {
        Entry::Occupied(o) => {
            let n = o.index as int;
            let (t, u) = (s.update(n, (s[n].0, v)), s.remove(n));
            val(s, k) == Some(s[n].1) && s[n].0.txt() == k
                && sorted(t) && val(t, k) == Some(v) && (forall|j: Seq<char>| j != k ==> #[trigger] val(t, j) == val(s, j)) && at(t, k, n)
                && sorted(u) && val(u, k) is None && (forall|j: Seq<char>| j != k ==> #[trigger] val(u, j) == val(s, j))
        }
        Entry::Vacant(o) => {
            let t = s.insert(o.index as int, (o.key, v));
            val(s, k) is None && sorted(t) && val(t, k) == Some(v) && (forall|j: Seq<char>| j != k ==> #[trigger] val(t, j) == val(s, j))
        }
    }
{
    lemma_val(s, k);
    match e {
        Entry::Occupied(o) => { let n = o.index as int; lemma_update(s, n, (s[n].0, v)); lemma_remove(s, n); assert(at(s.update(n, (s[n].0, v)), k, n)); }
        Entry::Vacant(o) => { lemma_insert(s, o.index as int, (o.key, v)); }
    }
}

// ---------------------------------------------------------------------------
// building
// ---------------------------------------------------------------------------
/// the last value given for k among the first n pairs
pub open spec fn last_of<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>) -> Option<V> decreases s.len() {
    if s.len() == 0 { None } else if s.last().0.txt() == k { Some(s.last().1) } else { last_of(s.drop_last(), k) }
}
/// the first value given for k
pub open spec fn first_of<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>) -> Option<V> decreases s.len() {
    if s.len() == 0 { None } else { match first_of(s.drop_last(), k) { Some(v) => Some(v), None => if s.last().0.txt() == k { Some(s.last().1) } else { None } } }
}
pub open spec fn hits(p: Seq<int>, j: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j }
/// std: slice::sort_by is stable
pub open spec fn stable<K: StrKey, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, p: Seq<int>) -> bool {
    t.len() == s.len() && p.len() == s.len()
        && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < s.len() && t[i] == s[p[i]])
        && (forall|j: int| 0 <= j < s.len() ==> #[trigger] hits(p, j))
        && (forall|i: int, j: int| 0 <= i < j < p.len() && key(t, i) == key(t, j) ==> #[trigger] p[i] < #[trigger] p[j])
}
pub open spec fn nondecreasing<K: StrKey, V>(t: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> le(#[trigger] key(t, i), #[trigger] key(t, j)) }
#[verifier::external_body]
pub fn sort__<K: StrKey, V>(s: &mut Vec<(K, V)>)
    ensures nondecreasing(final(s)@), exists|p: Seq<int>| stable(old(s)@, final(s)@, p)
{ unimplemented!() }
/// std: Vec::dedup_by keeps the first of neighbours that are the same
pub open spec fn dedup<K: StrKey, V>(s: Seq<(K, V)>) -> Seq<(K, V)> decreases s.len() {
    if s.len() == 0 { s } else { let p = dedup(s.drop_last()); if p.len() > 0 && p.last().0.txt() == s.last().0.txt() { p } else { p.push(s.last()) } }
}
#[verifier::external_body]
pub fn dedup__<K: StrKey, V>(s: &mut Vec<(K, V)>) ensures final(s)@ == dedup(old(s)@) { unimplemented!() }
//@ rewrite $x! . sort_by ( | $a! , $b! | $a! . 0 . as_ref ( ) . cmp ( $b! . 0 . as_ref ( ) ) ) ==> sort__(&mut $x)
//@ rewrite $x! . dedup_by ( | $a! , $b! | $a! . 0 . as_ref ( ) == $b! . 0 . as_ref ( ) ) ==> dedup__(&mut $x)

pub proof fn lemma_dedup<K: StrKey, V>(t: Seq<(K, V)>)
    requires nondecreasing(t)
    ensures sorted(dedup(t)), t.len() > 0 ==> dedup(t).len() > 0 && dedup(t).last().0.txt() == t.last().0.txt(),
        forall|k: Seq<char>| #[trigger] val(dedup(t), k) == first_of(t, k),
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last(); let d = dedup(u); let e = t.last(); let n = u.len() as int;
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies le(#[trigger] key(u, i), #[trigger] key(u, j)) by { assert(key(u, i) == key(t, i) && key(u, j) == key(t, j)); }
        lemma_dedup(u);
        if d.len() > 0 && d.last().0.txt() == e.0.txt() {
            assert(at(d, e.0.txt(), d.len() - 1));
            lemma_val(d, e.0.txt());
        } else {
            let m = d.len() as int;
            assert(d.push(e) =~= d.insert(m, e));
            assert forall|i: int| 0 <= i < m implies lt(#[trigger] key(d, i), e.0.txt()) by {
                assert(n > 0) by { if n == 0 { assert(u =~= Seq::<(K, V)>::empty()); } }
                assert(le(key(t, n - 1), key(t, n)));
                assert(key(u, n - 1) == key(t, n - 1));
                assert(key(d, m - 1) == key(t, n - 1));
                if i < m - 1 { lt_trans(key(d, i), key(d, m - 1), e.0.txt()); }
            }
            assert(gap(d, e.0.txt(), m));
            lemma_insert(d, m, e);
            lemma_val(d, e.0.txt());
        }
    }
}
pub open spec fn least<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>, i: int) -> bool { at(s, k, i) && forall|j: int| 0 <= j < i ==> !#[trigger] at(s, k, j) }
pub proof fn lemma_first<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>)
    ensures forall|i: int| #[trigger] least(s, k, i) ==> first_of(s, k) == Some(s[i].1),
        !holds(s, k) ==> first_of(s, k) is None,
    decreases s.len()
{
    if s.len() > 0 {
        let u = s.drop_last(); lemma_first(u, k);
        let n = u.len() as int;
        assert forall|i: int| #[trigger] least(s, k, i) implies first_of(s, k) == Some(s[i].1) by {
            if i < n {
                assert(at(u, k, i));
                assert forall|j: int| 0 <= j < i implies !#[trigger] at(u, k, j) by { assert(!at(s, k, j)); }
                assert(least(u, k, i));
            } else if holds(u, k) {
                let j = choose|j: int| at(u, k, j); assert(at(s, k, j));
            }
        }
        if !holds(s, k) {
            if holds(u, k) { let j = choose|j: int| at(u, k, j); assert(at(s, k, j)); }
            assert(!at(s, k, n));
        }
    }
}
pub proof fn lemma_least<K: StrKey, V>(s: Seq<(K, V)>, k: Seq<char>, n: int)
    requires at(s, k, n) ensures exists|i: int| least(s, k, i) decreases n
{
    if exists|j: int| 0 <= j < n && #[trigger] at(s, k, j) { let j = choose|j: int| 0 <= j < n && #[trigger] at(s, k, j); lemma_least(s, k, j); }
    else { assert(least(s, k, n)); }
}
pub proof fn stable_at<K: StrKey, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, p: Seq<int>, i: int)
    requires stable(s, t, p), 0 <= i < t.len() ensures 0 <= p[i] < s.len(), t[i] == s[p[i]], t.len() == s.len() == p.len() {}
pub proof fn stable_hit<K: StrKey, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, p: Seq<int>, j: int) -> (i: int)
    requires stable(s, t, p), 0 <= j < s.len() ensures 0 <= i < t.len(), p[i] == j
{ assert(hits(p, j)); choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j }
pub proof fn stable_order<K: StrKey, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, p: Seq<int>, i: int, j: int)
    requires stable(s, t, p), 0 <= i < j < t.len(), key(t, i) == key(t, j) ensures p[i] < p[j] {}
pub proof fn lemma_stable<K: StrKey, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, k: Seq<char>)
    requires exists|p: Seq<int>| stable(s, t, p) ensures first_of(t, k) == first_of(s, k)
{
    hide(stable); hide(first_of);
    let p = choose|p: Seq<int>| stable(s, t, p);
    lemma_first(s, k); lemma_first(t, k);
    if holds(t, k) {
        let n = choose|n: int| at(t, k, n);
        lemma_least(t, k, n);
        let i = choose|i: int| least(t, k, i);
        stable_at(s, t, p, i);
        assert(at(s, k, p[i]));
        assert forall|j: int| 0 <= j < p[i] implies !#[trigger] at(s, k, j) by {
            if at(s, k, j) {
                let m = stable_hit(s, t, p, j);
                stable_at(s, t, p, m);
                assert(at(t, k, m));
                if m < i { assert(!at(t, k, m)); }
                if i < m { stable_order(s, t, p, i, m); }
            }
        }
        assert(least(s, k, p[i]));
    } else if holds(s, k) {
        let j = choose|j: int| at(s, k, j);
        let m = stable_hit(s, t, p, j);
        stable_at(s, t, p, m);
        assert(at(t, k, m));
    }
}
//@ fn src/sequence.rs From for SequenceMap::from params="sequences"
    ensures r.wf(), forall|k: Seq<char>| #[trigger] r.val(k) == first_of(sequences@, k),
//@ start
    proof {
        assert forall|t: Seq<(K, V)>| nondecreasing(t) implies sorted(#[trigger] dedup(t)) by { lemma_dedup(t); }
        assert forall|t: Seq<(K, V)>, k: Seq<char>| nondecreasing(t) implies #[trigger] val(dedup(t), k) == first_of(t, k) by { lemma_dedup(t); }
        assert forall|t: Seq<(K, V)>, k: Seq<char>| (exists|p: Seq<int>| stable(sequences@, t, p)) implies #[trigger] first_of(t, k) == first_of(sequences@, k) by { lemma_stable(sequences@, t, k); }
    }
//@ end
// FromIterator is generic in the iterator; it is taken at Vec<(K, V)>
//@ fn src/sequence.rs FromIterator for SequenceMap::from_iter
    ensures r.wf(), forall|k: Seq<char>| #[trigger] r.val(k) == last_of(iter@, k),
//@ sigrewrite < I : IntoIterator < Item = ( K , V ) > > ( $x : I ) ==> ($x: Vec<(K, V)>)
//@ rewrite let $i! = $j! . into_iter ( ) ; ==> 
//@ rewrite $i! . size_hint ( ) . 0 ==> size_hint__(&$i)
//@ start
    let ghost src = iter@;
    assert(src.take(src.len() as int) =~= src);
//@ loop 0 kind=for iter=it
    invariant
        map.wf(), it.seq() == src, src == iter@, src.take(src.len() as int) == src,
        forall|k: Seq<char>| #[trigger] map.val(k) == last_of(src.take(it.index@ as int), k),
//@ loopbody 0
            proof { let n = it.index@ as int; assert(src.take(n + 1).drop_last() =~= src.take(n)); assert(src.take(n + 1).last() == src[n]); }
//@ end

} // verus!
fn main() {}
