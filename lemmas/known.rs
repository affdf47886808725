// Lemmas over the contracts of iterators over sources of known length.
//
// A history is the sequence of the *changes of the position* pos = min(counter, len), in the order in which they happen on the
// (single) atomic counter.  What a change may be is the guarantee checked by Kani on the code ("guarantee: the position never
// decreases"), what an operation returns is its ensures clause:
//   Some(from, k): "delivers with exactly one atomic change of the position", from `from` to `from + k`, k >= 1
//   None:          "no position is lost", "reports the end only when the position is at the end"
//   Skip:          skip_to_end: at most one change, to len; its positions are taken away (dropped, never delivered)
use vstd::prelude::*;
verus! {

pub enum Change {
    /// positions from..to are delivered to thread `t`
    Deliver { t: int, from: nat, to: nat },
    /// positions from..to are skipped
    Skip { from: nat, to: nat },
}

pub open spec fn from(c: Change) -> nat {
    match c { Change::Deliver { t, from, to } => from, Change::Skip { from, to } => from }
}
pub open spec fn to(c: Change) -> nat {
    match c { Change::Deliver { t, from, to } => to, Change::Skip { from, to } => to }
}

/// the position after the first n changes of the history
pub open spec fn pos(h: Seq<Change>, n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { to(h[n - 1]) }
}

/// each change satisfies the guarantee, and starts at the position which the previous one has left
pub open spec fn valid(h: Seq<Change>, len: nat) -> bool {
    forall|i: int| 0 <= i < h.len() ==> #[trigger] from(h[i]) == pos(h, i as nat) && from(h[i]) < to(h[i]) && to(h[i]) <= len
}

/// change i covers position g
pub open spec fn covers(h: Seq<Change>, i: int, g: nat) -> bool {
    0 <= i < h.len() && from(h[i]) <= g < to(h[i])
}

proof fn pos_monotone(h: Seq<Change>, len: nat, i: nat, j: nat)
    requires valid(h, len), i <= j <= h.len(),
    ensures pos(h, i) <= pos(h, j) <= len,
    decreases j
{
    if j > 0 {
        assert(from(h[j - 1]) == pos(h, (j - 1) as nat));
        if i < j {
            pos_monotone(h, len, i, (j - 1) as nat);
        }
        if i == j && j > 0 {
            pos_monotone(h, len, (j - 1) as nat, (j - 1) as nat);
        }
    }
}

/// C01: no position is taken twice
pub proof fn not_twice(h: Seq<Change>, len: nat, i: int, j: int, g: nat)
    requires valid(h, len), covers(h, i, g), covers(h, j, g),
    ensures i == j,
    decreases (if i > j { 1int } else { 0int })
{
    if i < j {
        pos_monotone(h, len, (i + 1) as nat, j as nat);
        assert(from(h[j]) == pos(h, j as nat));
        assert(pos(h, (i + 1) as nat) == to(h[i]));
        assert(false);
    }
    if j < i {
        not_twice(h, len, j, i, g);
    }
}

/// C01: none is lost: everything before the current position is covered by a change
pub proof fn none_lost(h: Seq<Change>, len: nat, n: nat, g: nat) -> (i: int)
    requires valid(h, len), n <= h.len(), g < pos(h, n),
    ensures covers(h, i, g), i < n,
    decreases n
{
    assert(n > 0);
    assert(from(h[n - 1]) == pos(h, (n - 1) as nat));
    if g >= from(h[n - 1]) {
        n - 1
    } else {
        none_lost(h, len, (n - 1) as nat, g)
    }
}

pub open spec fn delivered_by(h: Seq<Change>, i: int, g: nat, t: int) -> bool {
    covers(h, i, g) && h[i] is Deliver && h[i]->t == t
}

/// C01: when some thread has observed the end (the position is at len) and nothing was skipped,
/// every position of the source is delivered to exactly one thread, by exactly one change
pub proof fn exactly_once(h: Seq<Change>, len: nat, g: nat) -> (i: int)
    requires
        valid(h, len),
        pos(h, h.len()) == len,
        g < len,
        forall|k: int| 0 <= k < h.len() ==> #[trigger] h[k] is Deliver,
    ensures
        delivered_by(h, i, g, h[i]->t),
        forall|j: int| covers(h, j, g) ==> i == j,
{
    let i = none_lost(h, len, h.len(), g);
    assert forall|j: int| covers(h, j, g) implies i == j by {
        not_twice(h, len, i, j, g);
    }
    i
}

/// C04: the positions which are taken form a gap-free prefix
pub proof fn prefix(h: Seq<Change>, len: nat, g: nat)
    requires valid(h, len),
    ensures g < pos(h, h.len()) <==> exists|i: int| covers(h, i, g),
{
    if g < pos(h, h.len()) {
        let i = none_lost(h, len, h.len(), g);
    }
    if exists|i: int| covers(h, i, g) {
        let i = choose|i: int| covers(h, i, g);
        pos_monotone(h, len, (i + 1) as nat, h.len());
    }
}

/// C04: a pull whose change happens earlier delivers smaller positions.
/// (The change is an atomic step between call and return: if one pull returns before another one starts, and if one thread
/// pulls twice, the changes are in this order.)
pub proof fn order(h: Seq<Change>, len: nat, i: int, j: int, g: nat, k: nat)
    requires valid(h, len), i < j, covers(h, i, g), covers(h, j, k),
    ensures g < k,
{
    pos_monotone(h, len, (i + 1) as nat, j as nat);
    assert(from(h[j]) == pos(h, j as nat));
}

/// C05, C06, C11: once the position is at the end it stays there: no change follows
pub proof fn permanent(h: Seq<Change>, len: nat, n: nat)
    requires valid(h, len), n <= h.len(), pos(h, n) == len,
    ensures h.len() == n,
{
    if n < h.len() {
        assert(from(h[n as int]) == pos(h, n));
        assert(false);
    }
}

/// C11: the remaining length never increases
pub proof fn length_never_increases(h: Seq<Change>, len: nat, i: nat, j: nat)
    requires valid(h, len), i <= j <= h.len(),
    ensures len - pos(h, j) <= len - pos(h, i), 0 <= len - pos(h, j),
{
    pos_monotone(h, len, i, j);
}

/// C11: a length reported while other threads pull, between the values at the start and the end of the query, is at most the
/// length reported by a query which returned earlier
pub proof fn reported_never_increases(h: Seq<Change>, len: nat, s1: nat, e1: nat, l1: nat, s2: nat, e2: nat, l2: nat)
    requires
        valid(h, len), s1 <= e1 <= s2 <= e2 <= h.len(),
        len - pos(h, e1) <= l1 <= len - pos(h, s1),
        len - pos(h, e2) <= l2 <= len - pos(h, s2),
    ensures l2 <= l1,
{
    pos_monotone(h, len, e1, s2);
}

/// C11: zero is definitive: no change follows
pub proof fn zero_is_definitive(h: Seq<Change>, len: nat, s: nat, e: nat)
    requires valid(h, len), s <= e <= h.len(), len - pos(h, e) <= 0,
    ensures h.len() == e,
{
    pos_monotone(h, len, s, e);
    permanent(h, len, e);
}

// ---- C12: the visits of for_each by any number of threads

/// visits of position g by the changes of the first n changes: each change is visited by the thread that made it, element by element
pub open spec fn visits(h: Seq<Change>, n: nat, g: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { visits(h, (n - 1) as nat, g) + if covers(h, n - 1, g) { 1nat } else { 0nat } }
}

proof fn visits_zero(h: Seq<Change>, len: nat, n: nat, g: nat)
    requires valid(h, len), n <= h.len(), pos(h, n) <= g,
    ensures visits(h, n, g) == 0,
    decreases n
{
    if n > 0 {
        assert(from(h[n - 1]) == pos(h, (n - 1) as nat));
        pos_monotone(h, len, (n - 1) as nat, n);
        visits_zero(h, len, (n - 1) as nat, g);
    }
}
proof fn visits_once(h: Seq<Change>, len: nat, n: nat, g: nat)
    requires valid(h, len), n <= h.len(), g < pos(h, n),
    ensures visits(h, n, g) == 1,
    decreases n
{
    assert(from(h[n - 1]) == pos(h, (n - 1) as nat));
    if g >= from(h[n - 1]) {
        visits_zero(h, len, (n - 1) as nat, g);
    } else {
        visits_once(h, len, (n - 1) as nat, g);
    }
}

/// C12: the function is invoked exactly once for each position of the source
pub proof fn each_exactly_once(h: Seq<Change>, len: nat, g: nat)
    requires valid(h, len), pos(h, h.len()) == len, g < len,
    ensures visits(h, h.len(), g) == 1,
{
    visits_once(h, len, h.len(), g);
}

// ---- C12: fold with an associative and commutative operation and its neutral element

pub open spec fn commutative_monoid<B>(f: spec_fn(B, B) -> B, e: B) -> bool {
    &&& forall|a: B, b: B| #[trigger] f(a, b) == f(b, a)
    &&& forall|a: B, b: B, c: B| #[trigger] f(f(a, b), c) == f(a, f(b, c))
    &&& forall|a: B| #[trigger] f(e, a) == a
}

/// sequential fold of positions 0..n
pub open spec fn seq_fold<B>(f: spec_fn(B, B) -> B, e: B, src: spec_fn(nat) -> B, n: nat) -> B
    decreases n
{
    if n == 0 { e } else { f(seq_fold(f, e, src, (n - 1) as nat), src((n - 1) as nat)) }
}
/// fold of positions a..b
pub open spec fn range_fold<B>(f: spec_fn(B, B) -> B, e: B, src: spec_fn(nat) -> B, a: nat, b: nat) -> B
    decreases b
{
    if b <= a { e } else { f(range_fold(f, e, src, a, (b - 1) as nat), src((b - 1) as nat)) }
}
/// the result of thread t after the first n changes: it folds the elements of its own changes
pub open spec fn thread_fold<B>(f: spec_fn(B, B) -> B, e: B, src: spec_fn(nat) -> B, h: Seq<Change>, n: nat, t: int) -> B
    decreases n
{
    if n == 0 { e } else {
        let acc = thread_fold(f, e, src, h, (n - 1) as nat, t);
        if h[n - 1] is Deliver && h[n - 1]->t == t {
            f(acc, range_fold(f, e, src, from(h[n - 1]), to(h[n - 1])))
        } else { acc }
    }
}
/// the results of threads 0..k are combined
pub open spec fn combined<B>(f: spec_fn(B, B) -> B, e: B, src: spec_fn(nat) -> B, h: Seq<Change>, n: nat, k: nat) -> B
    decreases k
{
    if k == 0 { e } else { f(combined(f, e, src, h, n, (k - 1) as nat), thread_fold(f, e, src, h, n, (k - 1) as int)) }
}

proof fn range_splits<B>(f: spec_fn(B, B) -> B, e: B, src: spec_fn(nat) -> B, a: nat, b: nat)
    requires commutative_monoid(f, e), a <= b,
    ensures f(seq_fold(f, e, src, a), range_fold(f, e, src, a, b)) == seq_fold(f, e, src, b),
    decreases b
{
    if a < b {
        range_splits(f, e, src, a, (b - 1) as nat);
        let s = seq_fold(f, e, src, a);
        let r = range_fold(f, e, src, a, (b - 1) as nat);
        let x = src((b - 1) as nat);
        assert(f(f(s, r), x) == f(s, f(r, x)));
    } else {
        assert(f(seq_fold(f, e, src, a), e) == f(e, seq_fold(f, e, src, a)));
    }
}

/// a change of thread t adds its fold to the combination
proof fn combined_step<B>(f: spec_fn(B, B) -> B, e: B, src: spec_fn(nat) -> B, h: Seq<Change>, n: nat, k: nat)
    requires
        commutative_monoid(f, e), 0 < n <= h.len(), h[n - 1] is Deliver,
    ensures
        combined(f, e, src, h, n, k) == if 0 <= h[n - 1]->t < k {
            f(combined(f, e, src, h, (n - 1) as nat, k), range_fold(f, e, src, from(h[n - 1]), to(h[n - 1])))
        } else { combined(f, e, src, h, (n - 1) as nat, k) },
    decreases k
{
    if k > 0 {
        combined_step(f, e, src, h, n, (k - 1) as nat);
        let r = range_fold(f, e, src, from(h[n - 1]), to(h[n - 1]));
        let c = combined(f, e, src, h, (n - 1) as nat, (k - 1) as nat);
        let tf = thread_fold(f, e, src, h, (n - 1) as nat, (k - 1) as int);
        if h[n - 1]->t == k - 1 {
            assert(f(f(c, tf), r) == f(c, f(tf, r)));
        } else if 0 <= h[n - 1]->t < k - 1 {
            assert(f(f(c, r), tf) == f(c, f(r, tf)));
            assert(f(r, tf) == f(tf, r));
            assert(f(f(c, tf), r) == f(c, f(tf, r)));
        }
    }
}
proof fn combined_zero<B>(f: spec_fn(B, B) -> B, e: B, src: spec_fn(nat) -> B, h: Seq<Change>, k: nat)
    requires commutative_monoid(f, e),
    ensures combined(f, e, src, h, 0, k) == e,
    decreases k
{
    if k > 0 {
        combined_zero(f, e, src, h, (k - 1) as nat);
        assert(f(e, e) == e);
    }
}

/// C12: combining the results of the threads is the sequential fold of the source
pub proof fn fold_is_sequential<B>(f: spec_fn(B, B) -> B, e: B, src: spec_fn(nat) -> B, h: Seq<Change>, len: nat, n: nat, threads: nat)
    requires
        commutative_monoid(f, e), valid(h, len), n <= h.len(),
        forall|k: int| 0 <= k < h.len() ==> #[trigger] h[k] is Deliver && 0 <= h[k]->t < threads,
    ensures
        combined(f, e, src, h, n, threads) == seq_fold(f, e, src, pos(h, n)),
    decreases n
{
    if n == 0 {
        combined_zero(f, e, src, h, threads);
    } else {
        fold_is_sequential(f, e, src, h, len, (n - 1) as nat, threads);
        assert(from(h[n - 1]) == pos(h, (n - 1) as nat));
        assert(h[n - 1] is Deliver);
        combined_step(f, e, src, h, n, threads);
        range_splits(f, e, src, from(h[n - 1]), to(h[n - 1]));
    }
}

} // verus!
fn main() {}
