// Lemmas over the contracts of an iterator which wraps a sequential iterator.
//
// A history is the sequence of the changes of the ticket counter r, of the serving counter y and of the wrapped iterator.
// What a change may be is what Kani checks on the code:
//   Reserve{n}:       "the ticket counter never decreases": begin = r, r := r + n, n > 0
//   Serve{b, n, k}:   the owner of ticket [b, b + n), with y == b, has taken k elements and advances y to b + n
//                     ("only the server advances the serving counter, by its ticket, after all elements are taken";
//                      k == n unless the end was observed; nothing is taken after the end, k == 0)
//   Finish{b}:        the owner of the ticket with begin b == y observes the end and completes the iterator, y is not advanced
use vstd::prelude::*;
verus! {

pub enum Ev {
    Reserve { n: nat },
    Serve { b: nat, n: nat, k: nat },
    Finish { b: nat },
}

pub open spec fn r(h: Seq<Ev>, i: nat) -> nat
    decreases i
{
    if i == 0 { 0 } else { match h[i - 1] { Ev::Reserve { n } => r(h, (i - 1) as nat) + n, _ => r(h, (i - 1) as nat) } }
}
pub open spec fn y(h: Seq<Ev>, i: nat) -> nat
    decreases i
{
    if i == 0 { 0 } else { match h[i - 1] { Ev::Serve { b, n, k } => b + n, _ => y(h, (i - 1) as nat) } }
}
/// elements taken from the wrapped iterator
pub open spec fn p(h: Seq<Ev>, i: nat) -> nat
    decreases i
{
    if i == 0 { 0 } else { match h[i - 1] { Ev::Serve { b, n, k } => p(h, (i - 1) as nat) + k, _ => p(h, (i - 1) as nat) } }
}
pub open spec fn ended(h: Seq<Ev>, i: nat) -> bool
    decreases i
{
    if i == 0 { false } else {
        ended(h, (i - 1) as nat) || match h[i - 1] { Ev::Serve { b, n, k } => k < n, Ev::Finish { b } => true, _ => false }
    }
}

/// ticket [b, b + n) was reserved by event j
pub open spec fn ticket(h: Seq<Ev>, j: int, b: nat, n: nat) -> bool {
    0 <= j < h.len() && h[j] == (Ev::Reserve { n }) && r(h, j as nat) == b
}

pub open spec fn step(h: Seq<Ev>, i: int) -> bool {
    match h[i] {
        Ev::Reserve { n } => n > 0,
        Ev::Serve { b, n, k } => b == y(h, i as nat) && k <= n && (!ended(h, i as nat) || k == 0) && exists|j: int| j < i && ticket(h, j, b, n),
        Ev::Finish { b } => b == y(h, i as nat) && exists|j: int, n: nat| j < i && ticket(h, j, b, n),
    }
}
pub open spec fn valid(h: Seq<Ev>) -> bool {
    forall|i: int| 0 <= i < h.len() ==> #[trigger] step(h, i)
}

proof fn r_monotone(h: Seq<Ev>, i: nat, j: nat)
    requires i <= j <= h.len(),
    ensures r(h, i) <= r(h, j),
    decreases j
{
    if i < j {
        r_monotone(h, i, (j - 1) as nat);
    }
}

/// tickets are disjoint
pub proof fn tickets_disjoint(h: Seq<Ev>, i: int, j: int, b: nat, n: nat, c: nat, m: nat)
    requires ticket(h, i, b, n), ticket(h, j, c, m), i < j,
    ensures b + n <= c,
{
    assert(r(h, (i + 1) as nat) == b + n);
    r_monotone(h, (i + 1) as nat, j as nat);
}

/// a value of the ticket counter is the begin of a ticket, or the current value
proof fn boundary(h: Seq<Ev>, i: nat, n: nat)
    requires i <= n <= h.len(),
    ensures r(h, i) == r(h, n) || exists|j: int, m: nat| i <= j < n && ticket(h, j, r(h, i), m),
    decreases n - i
{
    if i < n {
        match h[i as int] {
            Ev::Reserve { n: m } => {
                assert(ticket(h, i as int, r(h, i), m));
            }
            _ => {
                assert(r(h, (i + 1) as nat) == r(h, i));
                boundary(h, (i + 1) as nat, n);
            }
        }
    }
}

/// the serving counter is always at a value which the ticket counter has had
proof fn serving_at_boundary(h: Seq<Ev>, n: nat) -> (i: nat)
    requires valid(h), n <= h.len(),
    ensures i <= n, y(h, n) == r(h, i),
    decreases n
{
    if n == 0 {
        0
    } else {
        assert(step(h, n - 1));
        match h[n - 1] {
            Ev::Serve { b, n: m, k } => {
                let j = choose|j: int| j < n - 1 && ticket(h, j, b, m);
                assert(r(h, (j + 1) as nat) == b + m);
                (j + 1) as nat
            }
            _ => serving_at_boundary(h, (n - 1) as nat),
        }
    }
}

proof fn y_monotone(h: Seq<Ev>, i: nat, j: nat)
    requires valid(h), i <= j <= h.len(),
    ensures y(h, i) <= y(h, j),
    decreases j
{
    if i < j {
        assert(step(h, j - 1));
        y_monotone(h, i, (j - 1) as nat);
    }
}

/// C09: whenever tickets are outstanding it is the turn of one of them: the next ticket exists ...
pub proof fn somebody_is_served(h: Seq<Ev>, n: nat)
    requires valid(h), n <= h.len(),
    ensures y(h, n) <= r(h, n),
            y(h, n) < r(h, n) ==> exists|j: int, m: nat| j < n && ticket(h, j, y(h, n), m),
{
    let i = serving_at_boundary(h, n);
    boundary(h, i, n);
    r_monotone(h, i, n);
}
/// ... and it is not yet served
pub proof fn served_once(h: Seq<Ev>, i: int, n: nat)
    requires valid(h), 0 <= i < n <= h.len(), h[i] is Serve,
    ensures h[i]->Serve_b < y(h, n),
{
    assert(step(h, i));
    let b = h[i]->Serve_b;
    let m = h[i]->Serve_n;
    let j = choose|j: int| j < i && ticket(h, j, b, m);
    assert(step(h, j));
    assert(y(h, (i + 1) as nat) == b + m);
    y_monotone(h, (i + 1) as nat, n);
}

/// C09: a waiting ticket is never jumped over ...
pub proof fn not_jumped_over(h: Seq<Ev>, t: int, b: nat, m: nat, n: nat)
    requires
        valid(h), ticket(h, t, b, m), n <= h.len(),
        forall|i: int| 0 <= i < n && h[i] is Serve ==> (#[trigger] h[i])->Serve_b != b,
    ensures y(h, n) <= b,
    decreases n
{
    if n > 0 {
        not_jumped_over(h, t, b, m, (n - 1) as nat);
        assert(step(h, n - 1));
        match h[n - 1] {
            Ev::Serve { b: c, n: l, k } => {
                let j = choose|j: int| j < n - 1 && ticket(h, j, c, l);
                assert(c == y(h, (n - 1) as nat));
                assert(h[n - 1]->Serve_b != b);
                assert(c < b);
                if j == t { } else if j < t { tickets_disjoint(h, j, t, c, l, b, m); } else { tickets_disjoint(h, t, j, b, m, c, l); }
            }
            _ => {}
        }
    }
}
/// ... and each service brings its turn nearer: the ranking b - y
pub proof fn ranking(h: Seq<Ev>, n: nat, b: nat)
    requires valid(h), 0 < n <= h.len(), h[n - 1] is Serve, y(h, n) <= b,
    ensures 0 <= b - y(h, n) < b - y(h, (n - 1) as nat),
{
    assert(step(h, n - 1));
    let c = h[n - 1]->Serve_b;
    let l = h[n - 1]->Serve_n;
    let j = choose|j: int| j < n - 1 && ticket(h, j, c, l);
    assert(step(h, j));
}

/// until the end is observed, the elements taken are the positions served
pub proof fn taken_is_served(h: Seq<Ev>, n: nat)
    requires valid(h), n <= h.len(),
    ensures !ended(h, n) ==> p(h, n) == y(h, n), p(h, n) <= y(h, n),
    decreases n
{
    if n > 0 {
        assert(step(h, n - 1));
        taken_is_served(h, (n - 1) as nat);
    }
}

/// event i delivers position g (its ticket's begin is the reported index, element k of the call is position b + k)
pub open spec fn delivers(h: Seq<Ev>, i: int, g: nat) -> bool {
    0 <= i < h.len() && h[i] is Serve && h[i]->Serve_b <= g < h[i]->Serve_b + h[i]->Serve_k
}

/// C02: the i-th element of a pull with reported begin b is the element which the wrapped iterator yields at position b + i
pub proof fn index_fidelity(h: Seq<Ev>, i: int)
    requires valid(h), 0 <= i < h.len(), h[i] is Serve, h[i]->Serve_k > 0,
    ensures h[i]->Serve_b == p(h, i as nat),
{
    assert(step(h, i));
    taken_is_served(h, i as nat);
}

/// C01: every element of the wrapped iterator is delivered ...
pub proof fn none_lost(h: Seq<Ev>, n: nat, g: nat) -> (i: int)
    requires valid(h), n <= h.len(), g < p(h, n),
    ensures delivers(h, i, g), i < n,
    decreases n
{
    assert(n > 0);
    if g < p(h, (n - 1) as nat) {
        none_lost(h, (n - 1) as nat, g)
    } else {
        index_fidelity(h, n - 1);
        n - 1
    }
}
/// ... once
pub proof fn not_twice(h: Seq<Ev>, i: int, j: int, g: nat)
    requires valid(h), delivers(h, i, g), delivers(h, j, g),
    ensures i == j,
    decreases (if i > j { 1int } else { 0int })
{
    if i < j {
        assert(step(h, i) && step(h, j));
        y_monotone(h, (i + 1) as nat, j as nat);
        assert(false);
    } else if j < i {
        not_twice(h, j, i, g);
    }
}

/// C04: earlier pulls deliver smaller positions, and the delivered positions are a gap-free prefix
pub proof fn order(h: Seq<Ev>, i: int, j: int, g: nat, k: nat)
    requires valid(h), i < j, delivers(h, i, g), delivers(h, j, k),
    ensures g < k,
{
    assert(step(h, i) && step(h, j));
    y_monotone(h, (i + 1) as nat, j as nat);
}
pub proof fn prefix(h: Seq<Ev>, g: nat)
    requires valid(h),
    ensures g < p(h, h.len()) <==> exists|i: int| delivers(h, i, g),
{
    if g < p(h, h.len()) {
        let i = none_lost(h, h.len(), g);
    }
    if exists|i: int| delivers(h, i, g) {
        let i = choose|i: int| delivers(h, i, g);
        index_fidelity(h, i);
        assert(p(h, (i + 1) as nat) == p(h, i as nat) + h[i]->Serve_k);
        p_monotone(h, (i + 1) as nat, h.len());
    }
}
proof fn p_monotone(h: Seq<Ev>, i: nat, j: nat)
    requires i <= j <= h.len(),
    ensures p(h, i) <= p(h, j),
    decreases j
{
    if i < j {
        p_monotone(h, i, (j - 1) as nat);
    }
}

/// C05: nothing is delivered after the end
pub proof fn permanent(h: Seq<Ev>, n: nat, i: int, g: nat)
    requires valid(h), n <= h.len(), ended(h, n), delivers(h, i, g),
    ensures i < n,
{
    if i >= n {
        ended_stays(h, n, i as nat);
        assert(step(h, i));
    }
}
proof fn ended_stays(h: Seq<Ev>, i: nat, j: nat)
    requires i <= j <= h.len(), ended(h, i),
    ensures ended(h, j),
    decreases j
{
    if i < j {
        ended_stays(h, i, (j - 1) as nat);
    }
}

} // verus!
fn main() {}
