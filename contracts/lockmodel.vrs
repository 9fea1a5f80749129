verus! {
// ---------------------------------------------------------------------------
// std::sync: what an attempt to take a lock reports. Every attempt is written down, with its outcome
// ---------------------------------------------------------------------------
pub enum Outcome { Given, Poisoned, Blocks }
pub struct Attempt { pub lock: int, pub got: Outcome }
pub tracked struct World { pub ghost log: Seq<Attempt> }
pub struct PoisonError<T> { pub v: T }
impl<T> PoisonError<T> {
    #[verifier::external_body]
    pub fn new(v: T) -> (r: PoisonError<T>) ensures r.v == v { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: T) ensures r == self.v { unimplemented!() }
}
pub enum TryLockError<T> { Poisoned(PoisonError<T>), WouldBlock }
pub type LockResult<T> = Result<T, PoisonError<T>>;
pub type TryLockResult<T> = Result<T, TryLockError<T>>;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { m: std::sync::Mutex<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MutexGuard<'a, T> { g: &'a T }
impl<'a, T> MutexGuard<'a, T> {
    /// which lock it holds
    pub uninterp spec fn of(self) -> int;
}
/// one attempt more, with this outcome
pub open spec fn tried(a: World, b: World, lock: int, got: Outcome) -> bool { b.log == a.log.push(Attempt { lock, got }) }
impl<T> Mutex<T> {
    pub uninterp spec fn id(self) -> int;
    #[verifier::external_body]
    pub fn lock(&self, Tracked(w): Tracked<&mut World>) -> (r: LockResult<MutexGuard<'_, T>>)
        ensures match r { Ok(g) => g.of() == self.id() && tried(*old(w), *final(w), self.id(), Outcome::Given), Err(p) => p.v.of() == self.id() && tried(*old(w), *final(w), self.id(), Outcome::Poisoned) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_lock(&self, Tracked(w): Tracked<&mut World>) -> (r: TryLockResult<MutexGuard<'_, T>>)
        ensures match r {
            Ok(g) => g.of() == self.id() && tried(*old(w), *final(w), self.id(), Outcome::Given),
            Err(TryLockError::Poisoned(p)) => p.v.of() == self.id() && tried(*old(w), *final(w), self.id(), Outcome::Poisoned),
            Err(TryLockError::WouldBlock) => tried(*old(w), *final(w), self.id(), Outcome::Blocks),
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn expect__<T>(r: LockResult<T>, m: &str) -> (t: T) ensures r == Ok::<T, PoisonError<T>>(t) { unimplemented!() }
#[verifier::external_body]
pub fn unwrap__<T>(r: LockResult<T>) -> (t: T) ensures r == Ok::<T, PoisonError<T>>(t) { unimplemented!() }
/// what was attempted since: each of these locks, the first of them at least until one would block
pub open spec fn since(a: World, b: World) -> Seq<Attempt> { b.log.skip(a.log.len() as int) }
pub open spec fn any(s: Seq<Attempt>, o: Outcome) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).got == o }
pub open spec fn attempts(s: Seq<Attempt>, lock: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).lock == lock }
/// nothing but these locks was attempted, and all of them unless one would block
pub open spec fn attempted(a: World, b: World, locks: Set<int>) -> bool {
    let s = since(a, b);
    &&& a.log.is_prefix_of(b.log)
    &&& forall|k: int| 0 <= k < s.len() ==> locks.contains((#[trigger] s[k]).lock)
    &&& any(s, Outcome::Blocks) || forall|j: int| #[trigger] locks.contains(j) ==> attempts(s, j)
}
/// the outcome is that of the attempts: contention before poisoning, else the guard plainly
pub open spec fn plainly(a: World, b: World) -> bool { !any(since(a, b), Outcome::Blocks) && !any(since(a, b), Outcome::Poisoned) }
pub open spec fn poisoned(a: World, b: World) -> bool { !any(since(a, b), Outcome::Blocks) && any(since(a, b), Outcome::Poisoned) }
pub open spec fn blocks(a: World, b: World) -> bool { any(since(a, b), Outcome::Blocks) }
pub proof fn lemma_tried()
    ensures forall|a: World, b: World, lock: int, got: Outcome| #[trigger] tried(a, b, lock, got) ==> attempted(a, b, set![lock]) && plainly(a, b) == (got is Given) && poisoned(a, b) == (got is Poisoned) && blocks(a, b) == (got is Blocks),
{
    assert forall|a: World, b: World, lock: int, got: Outcome| #[trigger] tried(a, b, lock, got) implies attempted(a, b, set![lock]) && plainly(a, b) == (got is Given) && poisoned(a, b) == (got is Poisoned) && blocks(a, b) == (got is Blocks) by {
        assert(since(a, b) =~= seq![Attempt { lock, got }]);
        assert(since(a, b)[0] == Attempt { lock, got });
        assert(attempts(since(a, b), lock));
    }
}
/// one after the other
pub proof fn lemma_then()
    ensures
        forall|a: World, b: World, c: World, k: int, l: int| #[trigger] attempted(a, b, set![k]) && #[trigger] attempted(b, c, set![l]) ==> attempted(a, c, set![k, l]) && attempted(a, c, set![l, k])
            && plainly(a, c) == (plainly(a, b) && plainly(b, c)) && blocks(a, c) == (blocks(a, b) || blocks(b, c)) && poisoned(a, c) == (!plainly(a, c) && !blocks(a, c)),
        forall|a: World, b: World, k: int, l: int| #[trigger] attempted(a, b, set![k]) && blocks(a, b) ==> #[trigger] attempted(a, b, set![k, l]) && #[trigger] attempted(a, b, set![l, k]),
{
    assert forall|a: World, b: World, c: World, k: int, l: int| #[trigger] attempted(a, b, set![k]) && #[trigger] attempted(b, c, set![l]) implies attempted(a, c, set![k, l]) && attempted(a, c, set![l, k])
            && plainly(a, c) == (plainly(a, b) && plainly(b, c)) && blocks(a, c) == (blocks(a, b) || blocks(b, c)) && poisoned(a, c) == (!plainly(a, c) && !blocks(a, c)) by {
        let (s, t, u) = (since(a, b), since(b, c), since(a, c));
        assert(u =~= s + t);
        assert(set![k, l] =~= set![l, k]);
        assert forall|o: Outcome| #[trigger] any(u, o) == (any(s, o) || any(t, o)) by {
            if any(s, o) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).got == o; assert(u[i].got == o); }
            if any(t, o) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).got == o; assert(u[s.len() + i].got == o); }
            if any(u, o) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).got == o; if i < s.len() { assert(s[i].got == o); } else { assert(t[i - s.len()].got == o); } }
        }
        assert forall|i: int| 0 <= i < u.len() implies set![k, l].contains((#[trigger] u[i]).lock) by { if i < s.len() { assert(set![k].contains(s[i].lock)); } else { assert(set![l].contains(t[i - s.len()].lock)); } }
        if !any(u, Outcome::Blocks) {
            assert(set![k].contains(k)); assert(set![l].contains(l));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lock == k; assert(u[i].lock == k);
            let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).lock == l; assert(u[s.len() + j].lock == l);
        }
    }
}
} // verus!
