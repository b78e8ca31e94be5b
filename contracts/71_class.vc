@mod method::class
use core::cmp::Ordering::*;
use crate::vf::wrap;
broadcast use {crate::vf::axiom_set_order, crate::vf::axiom_set_finite, crate::sp::row_fits, crate::sp::rowbuf_fits};
impl vstd::std_specs::cmp::PartialEqSpecImpl for Bell { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self == o } }
// ---- What is rung: rs are the rows of the lead with its left-over row, bells are given by their index
pub open spec fn leadlike(rs: Seq<Seq<Bell>>, st: int) -> bool { rs.len() > 1 && 0 < st <= usize::MAX && rs.len() <= usize::MAX && forall|i: int| 0 <= i < rs.len() ==> valid(#[trigger] rs[i]) && rs[i].len() == st }
pub open spec fn lead_n(rs: Seq<Seq<Bell>>) -> int { rs.len() - 1 }
/// The place of bell b in row i
pub open spec fn at(rs: Seq<Seq<Bell>>, i: int, b: int) -> int { idx_of(rs[i], b) }
/// The place bell which bell b becomes after the lead
pub open spec fn nx(rs: Seq<Seq<Bell>>, b: int) -> int { idx_of(rs.last(), b) }
/// The place bell which b is in lead k
pub open spec fn orb(rs: Seq<Seq<Bell>>, b: int, k: int) -> int decreases k { if k <= 0 { b } else { nx(rs, orb(rs, b, k - 1)) } }
/// The place of bell b at row t of the plain course
pub open spec fn course_place(rs: Seq<Seq<Bell>>, b: int, t: int) -> int { at(rs, t % lead_n(rs), orb(rs, b, t / lead_n(rs))) }
/// b comes back to its place after k leads, for the first time
pub open spec fn period(rs: Seq<Seq<Bell>>, b: int, k: int) -> bool { k >= 1 && orb(rs, b, k) == b && forall|j: int| 1 <= j < k ==> #[trigger] orb(rs, b, j) != b }
pub open spec fn is_bell(rs: Seq<Seq<Bell>>, b: int) -> bool { 0 <= b < rs[0].len() }
/// b is a hunt bell
pub open spec fn hunt(rs: Seq<Seq<Bell>>, b: int) -> bool { is_bell(rs, b) && nx(rs, b) == b }
/// Its path through the lead
pub open spec fn path(rs: Seq<Seq<Bell>>, b: int) -> Seq<usize> { Seq::new(lead_n(rs) as nat, |i: int| at(rs, i, b) as usize) }
// ---- Paths
/// How many of the first k satisfy h
pub open spec fn num(h: spec_fn(int) -> bool, k: int) -> int decreases k { if k <= 0 { 0 } else { num(h, k - 1) + if h(k - 1) { 1int } else { 0 } } }
/// The number of rows spent in place q
pub open spec fn stays(p: Seq<usize>, q: int) -> spec_fn(int) -> bool { |i: int| p[i] == q }
pub open spec fn rows_in(p: Seq<usize>, q: int) -> int { num(stays(p, q), p.len() as int) }
pub open spec fn unvisited(p: Seq<usize>, q: int) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != q }
pub open spec fn little(p: Seq<usize>, st: int) -> bool { exists|q: int| 0 <= q < st && #[trigger] unvisited(p, q) }
pub open spec fn stationary(p: Seq<usize>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == p[0] }
pub open spec fn twice_each(p: Seq<usize>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] rows_in(p, p[i] as int) == 2 }
pub open spec fn evenly(p: Seq<usize>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] rows_in(p, p[i] as int) == rows_in(p, p[0] as int) }
/// The path is the same backwards, starting from some row
#[verifier::opaque]
pub open spec fn mirror(p: Seq<usize>, i: int) -> bool { forall|t: int| 0 <= t < p.len() ==> p[(2 * p.len() - 1 - i - t) % p.len() as int] == #[trigger] p[t] }
pub open spec fn palindrome(p: Seq<usize>) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] mirror(p, i) }
/// The number of times it stays for two rows, lead end included
pub open spec fn blow_at(p: Seq<usize>) -> spec_fn(int) -> bool { |i: int| p[i] == p[wrap(i + 1, p.len() as int)] }
pub open spec fn blows(p: Seq<usize>) -> int { num(blow_at(p), p.len() as int) }
pub open spec fn path_class(p: Seq<usize>) -> HuntBellClass {
    if stationary(p) { HuntBellClass::TreblePlace } else if twice_each(p) { HuntBellClass::Plain } else if !palindrome(p) { HuntBellClass::Hybrid } else if !evenly(p) { HuntBellClass::Alliance }
    else if blows(p) > 2 { HuntBellClass::TreblePlace } else if blows(p) == 2 { HuntBellClass::TrebleDodging } else { HuntBellClass::Hybrid }
}
/// The order of dominance
pub open spec fn dominance(c: HuntBellClass) -> int { match c { HuntBellClass::Plain => 0, HuntBellClass::TrebleDodging => 1, HuntBellClass::TreblePlace => 2, HuntBellClass::Alliance => 3, HuntBellClass::Hybrid => 4 } }
pub open spec fn least_of(p: Seq<usize>, m: int) -> bool { (exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == m) && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] >= m }
/// Between rows i and i + 1, the path moves from one pair of places to another (counting pairs from its lowest place)
pub open spec fn crosses(p: Seq<usize>, i: int) -> bool { 0 <= i < p.len() && exists|m: int| #[trigger] least_of(p, m) && (p[i] - m) / 2 != (p[wrap(i + 1, p.len() as int)] - m) / 2 }
/// A place is made between rows i and i + 1, not at the lead or the back
pub open spec fn internal(rs: Seq<Seq<Bell>>, i: int) -> bool { exists|q: int| 0 < q < rs[0].len() - 1 && #[trigger] rs[i][q] == rs[i + 1][q] }
pub open spec fn sharp(a: int, b: int, c: int) -> bool { a == c && (b + 1 == a || b == a + 1) }
/// Bell b changes direction without making a place, at some row of the plain course
pub open spec fn turns(rs: Seq<Seq<Bell>>, b: int, t: int) -> bool { t >= 0 && sharp(course_place(rs, b, t), course_place(rs, b, t + 1), course_place(rs, b, t + 2)) }
// ---- The class
/// Is this a hunt bell of class h?
pub open spec fn leads_as(rs: Seq<Seq<Bell>>, b: int, h: HuntBellClass) -> bool { hunt(rs, b) && path_class(path(rs, b)) == h }
/// The dominant class of hunt bells
pub open spec fn dominant(rs: Seq<Seq<Bell>>, h: HuntBellClass) -> bool { (exists|b: int| #[trigger] leads_as(rs, b, h)) && forall|b: int, h2: HuntBellClass| #[trigger] leads_as(rs, b, h2) ==> dominance(h) <= dominance(h2) }
pub open spec fn differential(rs: Seq<Seq<Bell>>) -> bool { exists|a: int, b: int, j: int, k: int| #[trigger] is_bell(rs, a) && #[trigger] is_bell(rs, b) && #[trigger] period(rs, a, j) && #[trigger] period(rs, b, k) && j > 1 && k > 1 && j != k }
/// Is there a bell, other than plain hunt bells, which makes a sharp turn?
pub open spec fn bobbed(rs: Seq<Seq<Bell>>) -> bool { exists|b: int, t: int| is_bell(rs, b) && !leads_as(rs, b, HuntBellClass::Plain) && #[trigger] turns(rs, b, t) }
pub open spec fn cross_section(rs: Seq<Seq<Bell>>, i: int) -> bool { exists|b: int| #[trigger] leads_as(rs, b, HuntBellClass::TrebleDodging) && crosses(path(rs, b), i) }
pub open spec fn dodging_class(c: Class, all: bool, none: bool) -> bool { c == (if none { Class::TrebleBob } else if all { Class::Surprise } else { Class::Delight }) }
pub open spec fn refined(rs: Seq<Seq<Bell>>, h: HuntBellClass, c: Class) -> bool {
    match h {
        HuntBellClass::Plain => c == (if bobbed(rs) { Class::Bob } else { Class::Place }),
        HuntBellClass::TrebleDodging => dodging_class(c, forall|i: int| #[trigger] cross_section(rs, i) ==> internal(rs, i), forall|i: int| #[trigger] cross_section(rs, i) ==> !internal(rs, i)),
        HuntBellClass::TreblePlace => c == Class::TreblePlace, HuntBellClass::Alliance => c == Class::Alliance, HuntBellClass::Hybrid => c == Class::Hybrid }
}
pub open spec fn classified(rs: Seq<Seq<Bell>>, r: FullClass) -> bool {
    &&& !r.is_jump
    &&& r.is_differential == differential(rs)
    &&& (forall|b: int| !#[trigger] hunt(rs, b)) ==> r.class == Class::Principle && !r.is_little
    &&& (exists|b: int| #[trigger] hunt(rs, b)) ==> exists|h: HuntBellClass| #[trigger] dominant(rs, h) && refined(rs, h, r.class) && r.is_little == (forall|b: int| #[trigger] leads_as(rs, b, h) ==> little(path(rs, b), rs[0].len() as int))
}
// ---- Cycles of place bells
pub open spec fn linked(rs: Seq<Seq<Bell>>, pb: Seq<Bell>) -> bool {
    &&& pb.len() > 0 && distinct(pb) && nx(rs, pb.last().index as int) == pb[0].index
    &&& forall|j: int| 0 <= j < pb.len() ==> (#[trigger] pb[j]).index < rs[0].len()
    &&& forall|j: int| 0 <= j < pb.len() - 1 ==> (#[trigger] pb[j + 1]).index == nx(rs, pb[j].index as int)
}
/// The paths of the place bells one after the other
pub open spec fn joined(rs: Seq<Seq<Bell>>, pb: Seq<Bell>) -> Seq<usize> decreases pb.len() { if pb.len() == 0 { Seq::empty() } else { joined(rs, pb.drop_last()) + path(rs, pb.last().index as int) } }
impl Cycle {
    pub open spec fn of(&self, rs: Seq<Seq<Bell>>) -> bool { linked(rs, self.place_bells@) && self.full_path@ == joined(rs, self.place_bells@) }
    pub open spec fn has(&self, b: int) -> bool { exists|j: int| 0 <= j < self.place_bells@.len() && (#[trigger] self.place_bells@[j]).index == b }
    pub open spec fn hunts(&self) -> bool { self.place_bells@.len() == 1 }
}
pub open spec fn hunting(h: bool) -> spec_fn(Cycle) -> bool { |c: Cycle| c.hunts() == h }
/// Each bell is what the one before becomes
pub open spec fn chained(rs: Seq<Seq<Bell>>, pb: Seq<Bell>) -> bool {
    &&& distinct(pb)
    &&& forall|j: int| 0 <= j < pb.len() ==> (#[trigger] pb[j]).index < rs[0].len()
    &&& forall|j: int| 0 <= j < pb.len() - 1 ==> (#[trigger] pb[j + 1]).index == nx(rs, pb[j].index as int)
}
pub open spec fn begins(pb: Seq<Bell>, b: Bell) -> bool { pb.len() > 0 ==> pb[0] == b }
pub open spec fn follows(rs: Seq<Seq<Bell>>, pb: Seq<Bell>, start: Bell, b: Bell) -> bool { if pb.len() == 0 { b == start } else { nx(rs, pb.last().index as int) == b.index } }
pub open spec fn left(l: Seq<bool>) -> spec_fn(int) -> bool { |i: int| l[i] }
pub open spec fn is_in(pb: Seq<Bell>, b: int) -> bool { exists|j: int| 0 <= j < pb.len() && (#[trigger] pb[j]).index == b }
/// The bells left are those left before, without pb
pub open spec fn taken(before: Seq<bool>, now: Seq<bool>, pb: Seq<Bell>) -> bool { now.len() == before.len() && forall|b: int| 0 <= b < now.len() ==> #[trigger] now[b] == (before[b] && !is_in(pb, b)) }
pub open spec fn cycles_of(cs: Seq<Cycle>, rs: Seq<Seq<Bell>>) -> bool { forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).of(rs) }
pub open spec fn covers(cs: Seq<Cycle>, b: int) -> bool { exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).has(b) }
pub open spec fn some_turn(p: Seq<usize>) -> bool { exists|i: int| #[trigger] turn_at(p, i) }
pub open spec fn turn_at(p: Seq<usize>, i: int) -> bool { 0 <= i < p.len() && sharp(p[i] as int, p[wrap(i + 1, p.len() as int)] as int, p[wrap(i + 2, p.len() as int)] as int) }
pub open spec fn some_cross(cs: Seq<&Cycle>, i: int) -> bool { exists|k: int| 0 <= k < cs.len() && crosses((#[trigger] cs[k]).full_path@, i) }

// ---- Counting
pub proof fn lemma_num_bound(h: spec_fn(int) -> bool, k: int)
    requires k >= 0
    ensures 0 <= num(h, k) <= k
    decreases k
{ if k > 0 { lemma_num_bound(h, k - 1); } }
pub proof fn lemma_num_zero(h: spec_fn(int) -> bool, k: int)
    requires k >= 0
    ensures num(h, k) == 0 <==> (forall|i: int| 0 <= i < k ==> !#[trigger] h(i))
    decreases k
{ if k > 0 { lemma_num_zero(h, k - 1); lemma_num_bound(h, k - 1); assert(h(k - 1) || !h(k - 1)); } }
pub proof fn lemma_num_less(h: spec_fn(int) -> bool, g: spec_fn(int) -> bool, k: int, a: int)
    requires 0 <= a < k, forall|i: int| 0 <= i < k && #[trigger] h(i) ==> g(i), g(a), !h(a)
    ensures num(h, k) < num(g, k)
    decreases k
{ lemma_num_le(h, g, k - 1); if a < k - 1 { lemma_num_less(h, g, k - 1, a); } assert(h(k - 1) ==> g(k - 1)); }
pub proof fn lemma_num_le(h: spec_fn(int) -> bool, g: spec_fn(int) -> bool, k: int)
    requires k >= 0, forall|i: int| 0 <= i < k && #[trigger] h(i) ==> g(i)
    ensures num(h, k) <= num(g, k)
    decreases k
{ if k > 0 { lemma_num_le(h, g, k - 1); assert(h(k - 1) ==> g(k - 1)); } }
pub proof fn lemma_num_one(h: spec_fn(int) -> bool, k: int, a: int)
    requires 0 <= a < k, h(a)
    ensures num(h, k) == 1 <==> (forall|i: int| 0 <= i < k && #[trigger] h(i) ==> i == a)
    decreases k
{
    lemma_num_bound(h, k - 1);
    if a < k - 1 { lemma_num_one(h, k - 1, a); assert(num(h, k - 1) >= 1) by { lemma_num_zero(h, k - 1); } assert(h(k - 1) || !h(k - 1)); }
    else { lemma_num_zero(h, k - 1); }
}
pub proof fn lemma_keep_num<T>(xs: Seq<T>, g: spec_fn(T) -> bool, h: spec_fn(int) -> bool)
    requires forall|i: int| 0 <= i < xs.len() ==> #[trigger] h(i) == g(xs[i])
    ensures crate::vf::keep(xs, g).len() == num(h, xs.len() as int)
    decreases xs.len()
{ if xs.len() > 0 { let k = xs.len() - 1; lemma_keep_num(xs.drop_last(), g, h); assert(h(k) == g(xs[k])); } }
/// What is kept is what satisfies g
pub proof fn lemma_keep<T>(xs: Seq<T>, g: spec_fn(T) -> bool)
    ensures forall|j: int| 0 <= j < crate::vf::keep(xs, g).len() ==> g(#[trigger] crate::vf::keep(xs, g)[j]) && xs.contains(crate::vf::keep(xs, g)[j]),
        forall|i: int| 0 <= i < xs.len() && g(#[trigger] xs[i]) ==> crate::vf::keep(xs, g).contains(xs[i])
    decreases xs.len()
{
    let ys = crate::vf::keep(xs, g);
    if xs.len() > 0 {
        let d = xs.drop_last();
        let zs = crate::vf::keep(d, g);
        lemma_keep(d, g);
        assert forall|j: int| 0 <= j < ys.len() implies g(#[trigger] ys[j]) && xs.contains(ys[j]) by {
            if j < zs.len() { assert(ys[j] == zs[j]); let i = choose|i: int| 0 <= i < d.len() && d[i] == zs[j]; assert(xs[i] == ys[j]); } else { assert(ys[j] == xs[xs.len() - 1]); }
        }
        assert forall|i: int| 0 <= i < xs.len() && g(#[trigger] xs[i]) implies ys.contains(xs[i]) by {
            if i < d.len() { assert(d[i] == xs[i]); let j = choose|j: int| 0 <= j < zs.len() && zs[j] == d[i]; assert(ys[j] == zs[j]); } else { assert(ys[ys.len() - 1] == xs[i]); }
        }
    }
}
proof fn lemma_mirror_at(n: int, i: int, t: int)
    requires 0 <= i < n, 0 <= t < n
    ensures (2 * n - 1 - i - t) % n == n - 1 - (i + t) % n, 0 <= (i + t) % n < n
{
    if i + t < n { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + t, n, 0, i + t); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(2 * n - 1 - i - t, n, 1, n - 1 - i - t); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + t, n, 1, i + t - n); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(2 * n - 1 - i - t, n, 0, 2 * n - 1 - i - t); }
}
proof fn lemma_mirror(p: Seq<usize>, i: int)
    requires 0 <= i < p.len()
    ensures mirror(p, i) <==> (forall|t: int| 0 <= t < p.len() ==> p[p.len() - 1 - (i + t) % p.len() as int] == #[trigger] p[t]), forall|t: int| 0 <= t < p.len() ==> 0 <= (i + t) % (p.len() as int) < p.len() && #[trigger] p[t] == p[t]
{
    reveal(mirror);
    let n = p.len() as int;
    assert forall|t: int| 0 <= t < p.len() implies 0 <= (i + t) % p.len() as int && (i + t) % (p.len() as int) < p.len() && #[trigger] p[t] == p[t] by { lemma_mirror_at(n, i, t); }
    assert forall|t: int| 0 <= t < n implies p[(2 * n - 1 - i - t) % n] == p[n - 1 - (i + t) % n] && #[trigger] p[t] == p[t] by { lemma_mirror_at(n, i, t); }
}

pub proof fn lemma_nx(rs: Seq<Seq<Bell>>, st: int, a: int, b: int)
    requires leadlike(rs, st), 0 <= a < st, 0 <= b < st
    ensures 0 <= nx(rs, a) < st, nx(rs, a) == nx(rs, b) ==> a == b
{ lemma_idx_of(rs.last(), a); lemma_idx_of(rs.last(), b); }
pub proof fn lemma_next(rs: Seq<Seq<Bell>>, st: int, before: Seq<bool>, left0: Seq<bool>, left1: Seq<bool>, pb: Seq<Bell>, cur: Bell, next: Bell, start: Bell)
    requires leadlike(rs, st), before.len() == st, taken(before, left0, pb), 0 <= cur.index < st, left0[cur.index as int], left1 == left0.update(cur.index as int, false), chained(rs, pb), next.index == nx(rs, cur.index as int),
        pb.len() == 0 ==> cur == start, pb.len() > 0 ==> pb[0] == start && nx(rs, pb.last().index as int) == cur.index,
        forall|b: int| 0 <= b < st && #[trigger] before[b] ==> before[nx(rs, b)]
    ensures taken(before, left1, pb.push(cur)), chained(rs, pb.push(cur)), joined(rs, pb.push(cur)) == joined(rs, pb) + path(rs, cur.index as int), 0 <= num(left(left1), st) < num(left(left0), st),
        next.index < st, next != start ==> left1[next.index as int], next == start ==> linked(rs, pb.push(cur))
{
    let pc = pb.push(cur);
    lemma_nx(rs, st, cur.index as int, cur.index as int);
    assert(pc.drop_last() =~= pb);
    assert forall|b: int| 0 <= b < st implies #[trigger] left1[b] == (before[b] && !is_in(pc, b)) by {
        assert(left0[b] == (before[b] && !is_in(pb, b)));
        if b == cur.index { assert(pc[pb.len() as int].index == b); }
        if is_in(pb, b) { let j = choose|j: int| 0 <= j < pb.len() && (#[trigger] pb[j]).index == b; assert(pc[j].index == b); }
        if is_in(pc, b) && b != cur.index { let j = choose|j: int| 0 <= j < pc.len() && (#[trigger] pc[j]).index == b; assert(pb[j].index == b); }
    }
    assert forall|i: int, j: int| 0 <= i < j < pc.len() implies pc[i] != pc[j] by { if j == pb.len() { assert(pb[i].index != cur.index); } else { assert(pb[i] != pb[j]); } }
    assert forall|j: int| 0 <= j < pc.len() - 1 implies (#[trigger] pc[j + 1]).index == nx(rs, pc[j].index as int) by { if j + 1 < pb.len() { assert(pb[j + 1].index == nx(rs, pb[j].index as int)); } }
    lemma_num_less(left(left1), left(left0), st, cur.index as int); lemma_num_bound(left(left1), st);
    if next != start {
        let b = next.index as int;
        assert(before[cur.index as int]);
        assert(before[b]);
        if is_in(pc, b) {
            let j = choose|j: int| 0 <= j < pc.len() && (#[trigger] pc[j]).index == b;
            assert(pc[j] == next);
            assert(j > 0);
            assert(pc[(j - 1) + 1].index == nx(rs, pc[j - 1].index as int));
            lemma_nx(rs, st, pc[j - 1].index as int, cur.index as int);
            assert(pc[j - 1] == pc[pb.len() as int]);
            assert(false);
        }
    }
}
pub proof fn lemma_cycle_done(rs: Seq<Seq<Bell>>, st: int, before: Seq<bool>, now: Seq<bool>, pb: Seq<Bell>, cs0: Seq<Cycle>, cs: Seq<Cycle>)
    requires leadlike(rs, st), before.len() == st, taken(before, now, pb), linked(rs, pb), cs == cs0.push(cs.last()), cs.len() > 0, cs.last().place_bells@ == pb, cs.last().full_path@ == joined(rs, pb), cycles_of(cs0, rs),
        forall|b: int| 0 <= b < st && #[trigger] before[b] ==> before[nx(rs, b)],
        forall|b: int| 0 <= b < st && !before[b] ==> #[trigger] covers(cs0, b),
    ensures cycles_of(cs, rs), forall|b: int| 0 <= b < st && !now[b] ==> #[trigger] covers(cs, b), forall|b: int| 0 <= b < st && #[trigger] now[b] ==> now[nx(rs, b)]
{
    assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] cs[i]).of(rs) by { if i < cs0.len() { assert(cs0[i].of(rs)); } }
    assert forall|b: int| 0 <= b < st && !now[b] implies #[trigger] covers(cs, b) by {
        if before[b] { assert(is_in(pb, b)); let j = choose|j: int| 0 <= j < pb.len() && (#[trigger] pb[j]).index == b; assert(cs[cs.len() - 1].place_bells@[j].index == b); assert(cs[cs.len() - 1].has(b)); }
        else { assert(covers(cs0, b)); let i = choose|i: int| 0 <= i < cs0.len() && (#[trigger] cs0[i]).has(b); assert(cs[i].has(b)); }
    }
    assert forall|b: int| 0 <= b < st && #[trigger] now[b] implies now[nx(rs, b)] by {
        assert(before[b]);
        let c = nx(rs, b);
        lemma_nx(rs, st, b, b);
        assert(before[c]);
        if is_in(pb, c) {
            let j = choose|j: int| 0 <= j < pb.len() && (#[trigger] pb[j]).index == c;
            let i = if j == 0 { pb.len() - 1 } else { j - 1 };
            if j > 0 { assert(pb[i + 1].index == nx(rs, pb[i].index as int)); }
            lemma_nx(rs, st, pb[i].index as int, b);
            assert(is_in(pb, b));
        }
    }
}

// ---- What the counts of rows in each place tell
pub open spec fn counts(p: Seq<usize>, st: int, c: Seq<usize>) -> bool { p.len() > 0 && c.len() == st && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < st) && forall|q: int| 0 <= q < st ==> #[trigger] c[q] == rows_in(p, q) }
pub open spec fn positive<'v>() -> spec_fn(&'v usize) -> bool { |v: &usize| *v > 0 }
pub open spec fn equal_pair<'v>() -> spec_fn((&'v usize, &'v usize)) -> bool { |v: (&usize, &usize)| *v.0 == *v.1 }
pub open spec fn windows<'v>(p: Seq<usize>) -> Seq<(&'v usize, &'v usize)> { Seq::new(p.len(), |i: int| <(&usize, &usize) as crate::vf::VfWindow<&usize>>::window(ref_seq(p), i)) }
pub open spec fn some_rows(c: Seq<usize>) -> spec_fn(int) -> bool { |q: int| c[q] > 0 }
pub proof fn lemma_counts(p: Seq<usize>, st: int, c: Seq<usize>)
    requires counts(p, st, c)
    ensures forall|q: int| 0 <= q < st ==> (#[trigger] c[q] == 0 <==> unvisited(p, q)), forall|i: int| 0 <= i < p.len() ==> c[#[trigger] p[i] as int] > 0,
        little(p, st) <==> c.contains(0)
{
    assert forall|q: int| 0 <= q < st implies (#[trigger] c[q] == 0 <==> unvisited(p, q)) by {
        lemma_num_zero(stays(p, q), p.len() as int);
        if unvisited(p, q) { assert forall|i: int| 0 <= i < p.len() implies !#[trigger] stays(p, q)(i) by { assert(p[i] != q); } }
        if c[q] == 0 { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] != q by { assert(!stays(p, q)(i)); } }
    }
    assert forall|i: int| 0 <= i < p.len() implies c[#[trigger] p[i] as int] > 0 by { let q = p[i] as int; assert(!unvisited(p, q)); assert(c[q] != 0); }
    if little(p, st) { let q = choose|q: int| 0 <= q < st && #[trigger] unvisited(p, q); assert(c[q] == 0); }
    if c.contains(0) { let q = choose|q: int| 0 <= q < c.len() && c[q] == 0; assert(unvisited(p, q)); }
}
pub proof fn lemma_stationary(p: Seq<usize>, st: int, c: Seq<usize>)
    requires counts(p, st, c)
    ensures stationary(p) <==> crate::vf::keep(ref_seq(c), positive()).len() == 1
{
    lemma_counts(p, st, c);
    lemma_keep_num(ref_seq(c), positive(), some_rows(c));
    let a = p[0] as int;
    assert(some_rows(c)(a));
    lemma_num_one(some_rows(c), st, a);
    if stationary(p) { assert forall|q: int| 0 <= q < st && #[trigger] some_rows(c)(q) implies q == a by { assert(c[q] != 0); assert(!unvisited(p, q)); } }
    if forall|q: int| 0 <= q < st && #[trigger] some_rows(c)(q) ==> q == a { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == p[0] by { assert(some_rows(c)(p[i] as int)); } }
}
pub proof fn lemma_twice(p: Seq<usize>, st: int, c: Seq<usize>)
    requires counts(p, st, c)
    ensures twice_each(p) <==> (forall|q: int| 0 <= q < st ==> #[trigger] c[q] == 0 || c[q] == 2)
{
    lemma_counts(p, st, c);
    if twice_each(p) { assert forall|q: int| 0 <= q < st implies #[trigger] c[q] == 0 || c[q] == 2 by { if c[q] != 0 { assert(!unvisited(p, q)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == q; assert(rows_in(p, p[i] as int) == 2); } } }
    if forall|q: int| 0 <= q < st ==> #[trigger] c[q] == 0 || c[q] == 2 { assert forall|i: int| 0 <= i < p.len() implies #[trigger] rows_in(p, p[i] as int) == 2 by { assert(c[p[i] as int] > 0); } }
}
pub open spec fn steady(s: Seq<&usize>) -> bool { forall|j: int| 0 <= j < s.len() - 1 ==> *(#[trigger] s[j]) == *s[j + 1] }
pub proof fn lemma_steady(s: Seq<&usize>, j: int)
    requires steady(s), 0 <= j < s.len()
    ensures *s[j] == *s[0]
    decreases j
{ if j > 0 { lemma_steady(s, j - 1); assert(*s[j - 1] == *s[j - 1 + 1]); } }
pub proof fn lemma_evenly(p: Seq<usize>, st: int, c: Seq<usize>)
    requires counts(p, st, c)
    ensures evenly(p) <==> steady(crate::vf::keep(ref_seq(c), positive()))
{
    lemma_counts(p, st, c);
    let ks = crate::vf::keep(ref_seq(c), positive());
    lemma_keep(ref_seq(c), positive());
    if steady(ks) {
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] rows_in(p, p[i] as int) == rows_in(p, p[0] as int) by {
            let (q, q0) = (p[i] as int, p[0] as int);
            assert(c[q] > 0 && c[q0] > 0);
            assert(positive()(ref_seq(c)[q]) && positive()(ref_seq(c)[q0]));
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == ref_seq(c)[q];
            let j0 = choose|j: int| 0 <= j < ks.len() && ks[j] == ref_seq(c)[q0];
            lemma_steady(ks, j); lemma_steady(ks, j0);
        }
    }
    if evenly(p) {
        assert forall|j: int| 0 <= j < ks.len() implies *(#[trigger] ks[j]) == rows_in(p, p[0] as int) by {
            let q = choose|q: int| 0 <= q < ref_seq(c).len() && ref_seq(c)[q] == ks[j];
            assert(positive()(ks[j]));
            assert(c[q] > 0);
            assert(!unvisited(p, q));
            let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == q;
            assert(rows_in(p, p[i] as int) == rows_in(p, p[0] as int));
        }
    }
}
pub proof fn lemma_blows(p: Seq<usize>)
    ensures crate::vf::keep(windows(p), equal_pair()).len() == blows(p)
{
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] blow_at(p)(i) == equal_pair()(windows(p)[i]) by { crate::vf::lemma_wrap(i + 1, p.len() as int); }
    lemma_keep_num(windows(p), equal_pair(), blow_at(p));
}

pub open spec fn split(a: int, b: int, m: int) -> bool { (a - m) / 2 != (b - m) / 2 }
pub open spec fn crosses_from(p: Seq<usize>, m: int, i: int) -> bool { 0 <= i < p.len() && split(p[i] as int, p[wrap(i + 1, p.len() as int)] as int, m) }
pub proof fn lemma_windows(p: Seq<usize>)
    ensures windows(p).len() == p.len(),
        forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] wrap(i + 1, p.len() as int),
        forall|i: int| 0 <= i < p.len() ==> #[trigger] wrap(i + 1, p.len() as int) < p.len(),
        forall|i: int| 0 <= i < p.len() ==> *(#[trigger] windows(p)[i]).0 == p[i] && *windows(p)[i].1 == p[wrap(i + 1, p.len() as int)],
{
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] wrap(i + 1, p.len() as int)  by { crate::vf::lemma_wrap(i + 1, p.len() as int); }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] wrap(i + 1, p.len() as int) < p.len() by { crate::vf::lemma_wrap(i + 1, p.len() as int); }
    assert forall|i: int| 0 <= i < p.len() implies *(#[trigger] windows(p)[i]).0 == p[i] && *windows(p)[i].1 == p[wrap(i + 1, p.len() as int)] by { crate::vf::lemma_wrap(i + 1, p.len() as int); }
}
pub proof fn lemma_crosses(p: Seq<usize>, m: int, i: int)
    requires least_of(p, m)
    ensures crosses(p, i) == crosses_from(p, m, i)
{
    assert forall|m2: int| #[trigger] least_of(p, m2) implies m2 == m by {
        let a = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == m;
        let b = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == m2;
        assert(p[a] >= m2 && p[b] >= m);
    }
}
pub proof fn lemma_cross(hs: Seq<&Cycle>, k: int, p: Seq<usize>, m: int, before: Set<usize>, now: Set<usize>)
    requires 0 < k <= hs.len(), hs[k - 1].full_path@ == p, least_of(p, m), p.len() <= usize::MAX,
        forall|i: usize| #[trigger] now.contains(i) <==> before.contains(i) || crosses_from(p, m, i as int),
        forall|i: int| #[trigger] some_cross(hs.take(k - 1), i) ==> 0 <= i < p.len() && before.contains(i as usize), forall|i: usize| #[trigger] before.contains(i) ==> some_cross(hs.take(k - 1), i as int)
    ensures forall|i: int| #[trigger] some_cross(hs.take(k), i) ==> 0 <= i < p.len() && now.contains(i as usize), forall|i: usize| #[trigger] now.contains(i) ==> some_cross(hs.take(k), i as int)
{
    assert forall|i: int| #[trigger] some_cross(hs.take(k), i) implies 0 <= i < p.len() && now.contains(i as usize) by {
        let j = choose|j: int| 0 <= j < k && crosses((#[trigger] hs.take(k)[j]).full_path@, i);
        if j < k - 1 { assert(hs.take(k - 1)[j] == hs.take(k)[j]); assert(some_cross(hs.take(k - 1), i)); } else { lemma_crosses(p, m, i); assert(crosses_from(p, m, i)); }
    }
    assert forall|i: usize| #[trigger] now.contains(i) implies some_cross(hs.take(k), i as int) by {
        if before.contains(i) { let j = choose|j: int| 0 <= j < k - 1 && crosses((#[trigger] hs.take(k - 1)[j]).full_path@, i as int); assert(hs.take(k - 1)[j] == hs.take(k)[j]); }
        else { lemma_crosses(p, m, i as int); assert(hs.take(k)[k - 1] == hs[k - 1]); }
    }
}

// ---- The cycles, partitioned
pub open spec fn cls(c: Cycle) -> HuntBellClass { path_class(c.full_path@) }
pub open spec fn some_hunter(hs: Seq<Cycle>, b: int) -> bool { exists|i: int| 0 <= i < hs.len() && (#[trigger] hs[i]).place_bells@[0].index == b }
pub open spec fn hunters(hs: Seq<Cycle>, rs: Seq<Seq<Bell>>) -> bool { (forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]).of(rs) && hs[i].hunts()) && forall|b: int| #[trigger] hunt(rs, b) ==> some_hunter(hs, b) }
pub open spec fn workers(ws: Seq<Cycle>, rs: Seq<Seq<Bell>>) -> bool { (forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).of(rs) && !ws[i].hunts()) && forall|b: int| is_bell(rs, b) && !#[trigger] hunt(rs, b) ==> covers(ws, b) }
pub open spec fn best_of(hs: Seq<Cycle>, k: int, h: HuntBellClass) -> bool { (exists|j: int| 0 <= j < k && cls(#[trigger] hs[j]) == h) && forall|j: int| 0 <= j < k ==> dominance(h) <= dominance(cls(#[trigger] hs[j])) }
pub open spec fn all_little(hs: Seq<Cycle>, k: int, h: HuntBellClass, st: int) -> bool { forall|j: int| 0 <= j < k && cls(#[trigger] hs[j]) == h ==> little(hs[j].full_path@, st) }
pub open spec fn picked(ps: Seq<&Cycle>, hs: Seq<Cycle>, k: int, h: HuntBellClass) -> bool {
    &&& forall|m: int| 0 <= m < ps.len() ==> exists|j: int| 0 <= j < k && #[trigger] ps[m] == &#[trigger] hs[j] && cls(hs[j]) == h
    &&& forall|j: int| 0 <= j < k && cls(#[trigger] hs[j]) == h ==> ps.contains(&hs[j])
}
pub open spec fn same_lengths(ws: Seq<Cycle>) -> bool { forall|i: int| 0 <= i < ws.len() - 1 ==> (#[trigger] ws[i]).place_bells@.len() == ws[i + 1].place_bells@.len() }
/// The next place bell in a cycle
pub proof fn lemma_linked(rs: Seq<Seq<Bell>>, pb: Seq<Bell>, j: int)
    requires linked(rs, pb), 0 <= j < pb.len()
    ensures nx(rs, pb[j].index as int) == pb[wrap(j + 1, pb.len() as int)].index, 0 <= wrap(j + 1, pb.len() as int) < pb.len()
{ crate::vf::lemma_wrap(j + 1, pb.len() as int); if j < pb.len() - 1 { assert(pb[j + 1].index == nx(rs, pb[j].index as int)); } }
pub proof fn lemma_orb(rs: Seq<Seq<Bell>>, pb: Seq<Bell>, j: int, k: int)
    requires linked(rs, pb), 0 <= j < pb.len(), k >= 0
    ensures orb(rs, pb[j].index as int, k) == pb[wrap(j + k, pb.len() as int)].index, 0 <= wrap(j + k, pb.len() as int) < pb.len()
    decreases k
{
    let m = pb.len() as int;
    crate::vf::lemma_wrap(j + k, m);
    if k > 0 {
        lemma_orb(rs, pb, j, k - 1);
        lemma_linked(rs, pb, wrap(j + k - 1, m));
        assert(wrap(wrap(j + k - 1, m) + 1, m) == wrap(j + k, m)) by { reveal(wrap); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(1, j + k - 1, m); }
    }
}
pub proof fn lemma_period(rs: Seq<Seq<Bell>>, pb: Seq<Bell>, j: int)
    requires linked(rs, pb), 0 <= j < pb.len()
    ensures period(rs, pb[j].index as int, pb.len() as int)
{
    let m = pb.len() as int;
    let b = pb[j].index as int;
    lemma_orb(rs, pb, j, m);
    crate::vf::lemma_wrap(j + m, m);
    assert forall|k: int| 1 <= k < m implies #[trigger] orb(rs, b, k) != b by {
        lemma_orb(rs, pb, j, k); crate::vf::lemma_wrap(j + k, m);
        let i = wrap(j + k, m);
        assert(i != j);
        if i < j { assert(pb[i] != pb[j]); } else { assert(pb[j] != pb[i]); }
    }
}
pub proof fn lemma_period_unique(rs: Seq<Seq<Bell>>, b: int, j: int, k: int)
    requires period(rs, b, j), period(rs, b, k)
    ensures j == k
{ if j < k { assert(orb(rs, b, j) != b); } else if k < j { assert(orb(rs, b, k) != b); } }
/// A bell in a cycle hunts exactly when the cycle does
pub proof fn lemma_hunts(rs: Seq<Seq<Bell>>, c: Cycle, b: int)
    requires c.of(rs), c.has(b)
    ensures c.hunts() <==> hunt(rs, b), is_bell(rs, b), c.hunts() ==> c.place_bells@[0].index == b, period(rs, b, c.place_bells@.len() as int)
{
    let pb = c.place_bells@;
    let j = choose|j: int| 0 <= j < pb.len() && (#[trigger] pb[j]).index == b;
    lemma_linked(rs, pb, j); lemma_period(rs, pb, j);
    let i = wrap(j + 1, pb.len() as int);
    if hunt(rs, b) { assert(pb[i] == pb[j]); if pb.len() > 1 { crate::vf::lemma_wrap(j + 1, pb.len() as int); if i < j { assert(pb[i] != pb[j]); } else { assert(pb[j] != pb[i]); } } }
}
pub proof fn lemma_joined(rs: Seq<Seq<Bell>>, pb: Seq<Bell>)
    requires lead_n(rs) > 0
    ensures joined(rs, pb).len() == pb.len() * lead_n(rs),
        forall|x: int| 0 <= x < pb.len() * lead_n(rs) ==> #[trigger] joined(rs, pb)[x] == path(rs, pb[x / lead_n(rs)].index as int)[x % lead_n(rs)]
    decreases pb.len()
{
    let n = lead_n(rs);
    if pb.len() > 0 {
        let d = pb.drop_last();
        lemma_joined(rs, d);
        assert(pb.len() * n == d.len() * n + n) by (nonlinear_arith) requires pb.len() == d.len() + 1;
        assert forall|x: int| 0 <= x < pb.len() * n implies #[trigger] joined(rs, pb)[x] == path(rs, pb[x / n].index as int)[x % n] by {
            if x < d.len() * n { assert(0 <= x / n < d.len()) by (nonlinear_arith) requires 0 <= x < d.len() * n, n > 0; assert(joined(rs, pb)[x] == joined(rs, d)[x]); assert(d[x / n] == pb[x / n]); }
            else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, n, d.len() as int, x - d.len() * n); }
        }
    }
}
/// The path of a cycle is that of each of its bells through the course
pub proof fn lemma_course(rs: Seq<Seq<Bell>>, st: int, c: Cycle, j: int, t: int)
    requires leadlike(rs, st), c.of(rs), 0 <= j < c.place_bells@.len(), t >= 0
    ensures ({ let l = c.full_path@.len() as int; let x = wrap(j * lead_n(rs) + t, l);
        l > 0 && 0 <= x < l && c.full_path@[x] == course_place(rs, c.place_bells@[j].index as int, t) && 0 <= c.full_path@[x] < st })
{
    let (n, pb) = (lead_n(rs), c.place_bells@);
    let m = pb.len() as int;
    let y = j * n + t;
    lemma_joined(rs, pb);
    assert(n * m == m * n && m * n > 0) by (nonlinear_arith) requires m > 0, n > 0;
    vstd::arithmetic::div_mod::lemma_mod_breakdown(y, n, m);
    assert(y >= 0) by (nonlinear_arith) requires y == j * n + t, j >= 0, n > 0, t >= 0;
    assert(y / n == j + t / n && y % n == t % n) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, n); vstd::arithmetic::div_mod::lemma_mod_bound(t, n); assert(y == (j + t / n) * n + t % n) by (nonlinear_arith) requires y == j * n + t, t == n * (t / n) + t % n; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y, n, j + t / n, t % n); }
    let x = y % (n * m);
    vstd::arithmetic::div_mod::lemma_mod_bound(y, n * m);
    vstd::arithmetic::div_mod::lemma_mod_bound(y, n); vstd::arithmetic::div_mod::lemma_mod_bound(y / n, m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, n, (y / n) % m, y % n);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(t, n);
    reveal(wrap);
    lemma_orb(rs, pb, j, t / n);
    let b = pb[x / n].index as int;
    assert(pb[x / n].index < rs[0].len());
    assert(rs[x % n].len() == st && rs[0].len() == st);
    lemma_idx_of(rs[x % n], b);
    assert(c.full_path@[x] == path(rs, b)[x % n]);
}
/// A hunt bell's cycle is its path
pub proof fn lemma_hunter(rs: Seq<Seq<Bell>>, st: int, c: Cycle)
    requires leadlike(rs, st), c.of(rs), c.hunts()
    ensures c.full_path@ == path(rs, c.place_bells@[0].index as int), hunt(rs, c.place_bells@[0].index as int), c.full_path@.len() == lead_n(rs), forall|i: int| 0 <= i < c.full_path@.len() ==> (#[trigger] c.full_path@[i]) < st
{
    let pb = c.place_bells@;
    assert(pb.drop_last() =~= Seq::empty());
    assert(joined(rs, Seq::<Bell>::empty()) =~= Seq::empty());
    assert(joined(rs, pb) == joined(rs, pb.drop_last()) + path(rs, pb.last().index as int));
    assert(c.full_path@ =~= path(rs, pb[0].index as int));
    assert(c.has(pb[0].index as int));
    lemma_hunts(rs, c, pb[0].index as int);
    assert forall|i: int| 0 <= i < c.full_path@.len() implies (#[trigger] c.full_path@[i]) < st by { assert(rs[i].len() == st && rs[0].len() == st); lemma_idx_of(rs[i], pb[0].index as int); }
}
pub proof fn lemma_partition(rs: Seq<Seq<Bell>>, st: int, cs: Seq<Cycle>, hs: Seq<Cycle>, ws: Seq<Cycle>)
    requires leadlike(rs, st), cycles_of(cs, rs), forall|b: int| is_bell(rs, b) ==> #[trigger] covers(cs, b), hs == crate::vf::keep(cs, hunting(true)), ws == crate::vf::keep(cs, hunting(false))
    ensures hunters(hs, rs), workers(ws, rs)
{
    lemma_keep(cs, hunting(true)); lemma_keep(cs, hunting(false));
    assert forall|i: int| 0 <= i < hs.len() implies (#[trigger] hs[i]).of(rs) && hs[i].hunts() by { let k = choose|k: int| 0 <= k < cs.len() && cs[k] == hs[i]; assert(cs[k].of(rs)); assert(hunting(true)(hs[i])); }
    assert forall|i: int| 0 <= i < ws.len() implies (#[trigger] ws[i]).of(rs) && !ws[i].hunts() by { let k = choose|k: int| 0 <= k < cs.len() && cs[k] == ws[i]; assert(cs[k].of(rs)); assert(hunting(false)(ws[i])); }
    assert forall|b: int| #[trigger] hunt(rs, b) implies some_hunter(hs, b) by {
        assert(covers(cs, b));
        let k = choose|k: int| 0 <= k < cs.len() && (#[trigger] cs[k]).has(b);
        assert(cs[k].of(rs));
        lemma_hunts(rs, cs[k], b);
        assert(hunting(true)(cs[k]));
        let i = choose|i: int| 0 <= i < hs.len() && hs[i] == cs[k];
        assert(hs[i].place_bells@[0].index == b);
    }
    assert forall|b: int| is_bell(rs, b) && !#[trigger] hunt(rs, b) implies covers(ws, b) by {
        assert(covers(cs, b));
        let k = choose|k: int| 0 <= k < cs.len() && (#[trigger] cs[k]).has(b);
        assert(cs[k].of(rs));
        lemma_hunts(rs, cs[k], b);
        assert(hunting(false)(cs[k]));
        let i = choose|i: int| 0 <= i < ws.len() && ws[i] == cs[k];
        assert(ws[i].has(b));
    }
}
pub proof fn lemma_same_lengths(ws: Seq<Cycle>, i: int)
    requires same_lengths(ws), 0 <= i < ws.len()
    ensures ws[i].place_bells@.len() == ws[0].place_bells@.len()
    decreases i
{ if i > 0 { lemma_same_lengths(ws, i - 1); assert(ws[i - 1].place_bells@.len() == ws[i - 1 + 1].place_bells@.len()); } }
pub proof fn lemma_differential(rs: Seq<Seq<Bell>>, st: int, ws: Seq<Cycle>)
    requires leadlike(rs, st), workers(ws, rs)
    ensures differential(rs) == !same_lengths(ws)
{
    if !same_lengths(ws) {
        let i = choose|i: int| 0 <= i < ws.len() - 1 && (#[trigger] ws[i]).place_bells@.len() != ws[i + 1].place_bells@.len();
        let (c, d) = (ws[i], ws[i + 1]);
        assert(c.of(rs) && d.of(rs));
        let (a, b) = (c.place_bells@[0].index as int, d.place_bells@[0].index as int);
        assert(c.has(a) && d.has(b));
        lemma_hunts(rs, c, a); lemma_hunts(rs, d, b);
        assert(is_bell(rs, a) && is_bell(rs, b) && period(rs, a, c.place_bells@.len() as int) && period(rs, b, d.place_bells@.len() as int));
    }
    if differential(rs) && same_lengths(ws) {
        let (a, b, j, k) = choose|a: int, b: int, j: int, k: int| #[trigger] is_bell(rs, a) && #[trigger] is_bell(rs, b) && #[trigger] period(rs, a, j) && #[trigger] period(rs, b, k) && j > 1 && k > 1 && j != k;
        reveal_with_fuel(orb, 2);
        assert(orb(rs, a, 1) != a && orb(rs, b, 1) != b);
        assert(!hunt(rs, a) && !hunt(rs, b));
        let x = choose|i: int| 0 <= i < ws.len() && (#[trigger] ws[i]).has(a);
        let y = choose|i: int| 0 <= i < ws.len() && (#[trigger] ws[i]).has(b);
        lemma_hunts(rs, ws[x], a); lemma_hunts(rs, ws[y], b);
        lemma_period_unique(rs, a, j, ws[x].place_bells@.len() as int); lemma_period_unique(rs, b, k, ws[y].place_bells@.len() as int);
        lemma_same_lengths(ws, x); lemma_same_lengths(ws, y);
    }
}

/// The lemma of one step of the search for the dominant class
pub proof fn lemma_best(hs: Seq<Cycle>, k: int, st: int, h0: HuntBellClass, h1: HuntBellClass, l0: bool, l1: bool, ps0: Seq<&Cycle>, ps1: Seq<&Cycle>)
    requires 0 < k < hs.len(), best_of(hs, k, h0), l0 == all_little(hs, k, h0, st), picked(ps0, hs, k, h0),
        dominance(cls(hs[k])) < dominance(h0) ==> h1 == cls(hs[k]) && l1 == little(hs[k].full_path@, st) && ps1 =~= seq![&hs[k]],
        dominance(cls(hs[k])) == dominance(h0) ==> h1 == h0 && l1 == (l0 && little(hs[k].full_path@, st)) && ps1 =~= ps0.push(&hs[k]),
        dominance(cls(hs[k])) > dominance(h0) ==> h1 == h0 && l1 == l0 && ps1 == ps0,
    ensures best_of(hs, k + 1, h1), l1 == all_little(hs, k + 1, h1, st), picked(ps1, hs, k + 1, h1)
{
    let c = hs[k];
    if dominance(cls(c)) < dominance(h0) {
        assert(ps1[0] == &hs[k]);
        assert(all_little(hs, k + 1, h1, st) == l1);
    } else if dominance(cls(c)) == dominance(h0) {
        assert(cls(c) == h0);
        assert(ps1[ps0.len() as int] == &hs[k]);
        assert forall|m: int| 0 <= m < ps1.len() implies exists|j: int| 0 <= j < k + 1 && #[trigger] ps1[m] == &#[trigger] hs[j] && cls(hs[j]) == h1 by {
            if m < ps0.len() { assert(ps1[m] == ps0[m]); let j = choose|j: int| 0 <= j < k && #[trigger] ps0[m] == &#[trigger] hs[j] && cls(hs[j]) == h0; assert(ps1[m] == &hs[j]); }
        }
        assert forall|j: int| 0 <= j < k + 1 && cls(#[trigger] hs[j]) == h1 implies ps1.contains(&hs[j]) by {
            if j < k { assert(ps0.contains(&hs[j])); let m = choose|m: int| 0 <= m < ps0.len() && ps0[m] == &hs[j]; assert(ps1[m] == &hs[j]); }
        }
        assert(all_little(hs, k + 1, h1, st) == l1) by { if all_little(hs, k + 1, h1, st) { assert(little(hs[k].full_path@, st)); assert(all_little(hs, k, h0, st)); } }
    } else {
        assert(all_little(hs, k + 1, h1, st) == all_little(hs, k, h1, st));
        assert forall|m: int| 0 <= m < ps1.len() implies exists|j: int| 0 <= j < k + 1 && #[trigger] ps1[m] == &#[trigger] hs[j] && cls(hs[j]) == h1 by {
            let j = choose|j: int| 0 <= j < k && #[trigger] ps0[m] == &#[trigger] hs[j] && cls(hs[j]) == h0; assert(ps1[m] == &hs[j]);
        }
    }
}
pub open spec fn leader(ps: Seq<&Cycle>, b: int) -> bool { exists|m: int| 0 <= m < ps.len() && (#[trigger] ps[m]).place_bells@[0].index == b }
/// The cycles picked are those of the hunt bells of the class
pub proof fn lemma_picked(rs: Seq<Seq<Bell>>, st: int, hs: Seq<Cycle>, ps: Seq<&Cycle>, h: HuntBellClass)
    requires leadlike(rs, st), hunters(hs, rs), picked(ps, hs, hs.len() as int, h)
    ensures forall|m: int| 0 <= m < ps.len() ==> (#[trigger] ps[m]).of(rs) && ps[m].hunts() && leads_as(rs, ps[m].place_bells@[0].index as int, h) && ps[m].full_path@ == path(rs, ps[m].place_bells@[0].index as int) && ps[m].full_path@.len() == lead_n(rs),
        forall|b: int| #[trigger] leads_as(rs, b, h) ==> leader(ps, b)
{
    assert forall|m: int| 0 <= m < ps.len() implies (#[trigger] ps[m]).of(rs) && ps[m].hunts() && leads_as(rs, ps[m].place_bells@[0].index as int, h) && ps[m].full_path@ == path(rs, ps[m].place_bells@[0].index as int) && ps[m].full_path@.len() == lead_n(rs) by {
        let j = choose|j: int| 0 <= j < hs.len() && #[trigger] ps[m] == &#[trigger] hs[j] && cls(hs[j]) == h;
        lemma_hunter(rs, st, hs[j]);
    }
    assert forall|b: int| #[trigger] leads_as(rs, b, h) implies leader(ps, b) by {
        assert(some_hunter(hs, b));
        let i = choose|i: int| 0 <= i < hs.len() && (#[trigger] hs[i]).place_bells@[0].index == b;
        lemma_hunter(rs, st, hs[i]);
        assert(cls(hs[i]) == h);
        assert(ps.contains(&hs[i]));
        let m = choose|m: int| 0 <= m < ps.len() && ps[m] == &hs[i];
        assert(ps[m].place_bells@[0].index == b);
    }
}
pub proof fn lemma_cross_section(rs: Seq<Seq<Bell>>, st: int, hs: Seq<Cycle>, ps: Seq<&Cycle>)
    requires leadlike(rs, st), hunters(hs, rs), picked(ps, hs, hs.len() as int, HuntBellClass::TrebleDodging)
    ensures forall|i: int| #[trigger] some_cross(ps, i) == cross_section(rs, i), forall|i: int| some_cross(ps, i) == #[trigger] cross_section(rs, i),
        (forall|i: int| #[trigger] some_cross(ps, i) ==> internal(rs, i)) == (forall|i: int| #[trigger] cross_section(rs, i) ==> internal(rs, i)),
        (forall|i: int| #[trigger] some_cross(ps, i) ==> !internal(rs, i)) == (forall|i: int| #[trigger] cross_section(rs, i) ==> !internal(rs, i)),
{
    let h = HuntBellClass::TrebleDodging;
    lemma_picked(rs, st, hs, ps, h);
    assert forall|i: int| #[trigger] some_cross(ps, i) == cross_section(rs, i) by {
        if some_cross(ps, i) { let m = choose|m: int| 0 <= m < ps.len() && crosses((#[trigger] ps[m]).full_path@, i); let b = ps[m].place_bells@[0].index as int; assert(leads_as(rs, b, h) && crosses(path(rs, b), i)); }
        if cross_section(rs, i) {
            let b = choose|b: int| #[trigger] leads_as(rs, b, h) && crosses(path(rs, b), i);
            assert(leader(ps, b));
            let m = choose|m: int| 0 <= m < ps.len() && (#[trigger] ps[m]).place_bells@[0].index == b;
            assert(crosses(ps[m].full_path@, i));
        }
    }
    if forall|i: int| #[trigger] some_cross(ps, i) ==> internal(rs, i) { assert forall|i: int| #[trigger] cross_section(rs, i) implies internal(rs, i) by { assert(some_cross(ps, i)); } }
    if forall|i: int| #[trigger] some_cross(ps, i) ==> !internal(rs, i) { assert forall|i: int| #[trigger] cross_section(rs, i) implies !internal(rs, i) by { assert(some_cross(ps, i)); } }
}
pub open spec fn in_some(cs: Seq<&Cycle>, b: int) -> bool { exists|k: int| 0 <= k < cs.len() && (#[trigger] cs[k]).has(b) }
/// The cycles of all the bells but the plain hunt bells
pub open spec fn others(cs: Seq<&Cycle>, rs: Seq<Seq<Bell>>) -> bool {
    &&& forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).of(rs)
    &&& forall|k: int, b: int| 0 <= k < cs.len() && #[trigger] cs[k].has(b) ==> is_bell(rs, b) && !leads_as(rs, b, HuntBellClass::Plain)
    &&& forall|b: int| is_bell(rs, b) && !#[trigger] leads_as(rs, b, HuntBellClass::Plain) ==> in_some(cs, b)
}
pub open spec fn not_among<'v>(hb: Seq<Bell>) -> spec_fn(&'v Cycle) -> bool { |c: &Cycle| !hb.contains(c.place_bells@[0]) }
pub proof fn lemma_others(rs: Seq<Seq<Bell>>, st: int, hs: Seq<Cycle>, ws: Seq<Cycle>, ps: Seq<&Cycle>, hb: Seq<Bell>, cs: Seq<&Cycle>)
    requires leadlike(rs, st), hunters(hs, rs), workers(ws, rs), picked(ps, hs, hs.len() as int, HuntBellClass::Plain), hb.len() == ps.len(),
        forall|m: int| 0 <= m < ps.len() ==> #[trigger] hb[m] == ps[m].place_bells@[0], cs == ref_seq(ws) + crate::vf::keep(ref_seq(hs), not_among(hb))
    ensures others(cs, rs)
{
    let plain = HuntBellClass::Plain;
    lemma_picked(rs, st, hs, ps, plain);
    let g: spec_fn(&Cycle) -> bool = not_among(hb);
    let ks = crate::vf::keep(ref_seq(hs), g);
    lemma_keep(ref_seq(hs), g);
    let n = ws.len() as int;
    assert forall|i: int| 0 <= i < hs.len() implies #[trigger] g(&hs[i]) == !leads_as(rs, hs[i].place_bells@[0].index as int, plain) by {
        let c = hs[i]; let b = c.place_bells@[0].index as int;
        if leads_as(rs, b, plain) { assert(leader(ps, b)); let m = choose|m: int| 0 <= m < ps.len() && (#[trigger] ps[m]).place_bells@[0].index == b; assert(hb[m] == c.place_bells@[0]); }
        if hb.contains(c.place_bells@[0]) { let m = choose|m: int| 0 <= m < hb.len() && hb[m] == c.place_bells@[0]; assert(ps[m].place_bells@[0].index == b); }
    }
    assert forall|k: int| 0 <= k < cs.len() implies (#[trigger] cs[k]).of(rs) && (k < n ==> !cs[k].hunts()) && (k >= n ==> cs[k].hunts() && !leads_as(rs, cs[k].place_bells@[0].index as int, plain)) by {
        if k < n { assert(cs[k] == ref_seq(ws)[k]); assert(ws[k].of(rs)); }
        else { assert(cs[k] == ks[k - n]); let i = choose|i: int| 0 <= i < ref_seq(hs).len() && ref_seq(hs)[i] == ks[k - n]; assert(hs[i].of(rs)); assert(g(&hs[i])); }
    }
    assert forall|k: int, b: int| 0 <= k < cs.len() && #[trigger] cs[k].has(b) implies is_bell(rs, b) && !leads_as(rs, b, plain) by { assert(cs[k].of(rs)); lemma_hunts(rs, *cs[k], b); }
    assert forall|b: int| is_bell(rs, b) && !#[trigger] leads_as(rs, b, plain) implies in_some(cs, b) by {
        if hunt(rs, b) {
            assert(some_hunter(hs, b));
            let i = choose|i: int| 0 <= i < hs.len() && (#[trigger] hs[i]).place_bells@[0].index == b;
            assert(g(&hs[i])); assert(ref_seq(hs)[i] == &hs[i]);
            assert(ks.contains(&hs[i]));
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == &hs[i];
            assert(cs[n + j] == &hs[i]);
            assert(hs[i].of(rs));
            assert(cs[n + j].has(b));
        } else {
            assert(covers(ws, b));
            let i = choose|i: int| 0 <= i < ws.len() && (#[trigger] ws[i]).has(b);
            assert(cs[i] == &ws[i]);
        }
    }
}
proof fn lemma_wrap_next(y: int, l: int)
    requires l > 0
    ensures wrap(wrap(y, l) + 1, l) == wrap(y + 1, l), wrap(wrap(y, l) + 2, l) == wrap(y + 2, l)
{ reveal(wrap); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(1, y, l); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(2, y, l); }
pub proof fn lemma_bobbed(rs: Seq<Seq<Bell>>, st: int, cs: Seq<&Cycle>)
    requires leadlike(rs, st), others(cs, rs)
    ensures bobbed(rs) == (exists|k: int| 0 <= k < cs.len() && some_turn((#[trigger] cs[k]).full_path@))
{
    if exists|k: int| 0 <= k < cs.len() && some_turn((#[trigger] cs[k]).full_path@) {
        let k = choose|k: int| 0 <= k < cs.len() && some_turn((#[trigger] cs[k]).full_path@);
        let c = *cs[k];
        let i = choose|i: int| #[trigger] turn_at(c.full_path@, i);
        assert(c.of(rs));
        let b = c.place_bells@[0].index as int;
        lemma_course(rs, st, c, 0, i); lemma_course(rs, st, c, 0, i + 1); lemma_course(rs, st, c, 0, i + 2);
        crate::vf::lemma_wrap(i, c.full_path@.len() as int);
        assert(0 * lead_n(rs) + i == i);
        assert(c.has(b)); assert(cs[k].has(b));
        assert(turns(rs, b, i));
    }
    if bobbed(rs) {
        let (b, t) = choose|b: int, t: int| is_bell(rs, b) && !leads_as(rs, b, HuntBellClass::Plain) && #[trigger] turns(rs, b, t);
        assert(in_some(cs, b));
        let k = choose|k: int| 0 <= k < cs.len() && (#[trigger] cs[k]).has(b);
        let c = *cs[k];
        assert(cs[k].of(rs));
        let j = choose|j: int| 0 <= j < c.place_bells@.len() && (#[trigger] c.place_bells@[j]).index == b;
        let l = c.full_path@.len() as int;
        let y = j * lead_n(rs) + t;
        lemma_course(rs, st, c, j, t); lemma_course(rs, st, c, j, t + 1); lemma_course(rs, st, c, j, t + 2);
        lemma_wrap_next(y, l);
        assert(y + 1 == j * lead_n(rs) + (t + 1) && y + 2 == j * lead_n(rs) + (t + 2));
        assert(turn_at(c.full_path@, wrap(y, l)));
        assert(some_turn(cs[k].full_path@));
    }
}
/// Every place on a cycle's path is a place of the stage
pub proof fn lemma_places(rs: Seq<Seq<Bell>>, st: int, c: Cycle, i: int)
    requires leadlike(rs, st), c.of(rs), 0 <= i < c.full_path@.len()
    ensures c.full_path@[i] < st
{ lemma_course(rs, st, c, 0, i); crate::vf::lemma_wrap(i, c.full_path@.len() as int); assert(0 * lead_n(rs) + i == i); }
pub proof fn lemma_classified(rs: Seq<Seq<Bell>>, st: int, hs: Seq<Cycle>, ps: Seq<&Cycle>, h: HuntBellClass, r: FullClass)
    requires leadlike(rs, st), hunters(hs, rs), hs.len() > 0, best_of(hs, hs.len() as int, h), picked(ps, hs, hs.len() as int, h), refined(rs, h, r.class), r.is_little == all_little(hs, hs.len() as int, h, st), !r.is_jump, r.is_differential == differential(rs)
    ensures classified(rs, r)
{
    lemma_picked(rs, st, hs, ps, h);
    assert(rs[0].len() == st);
    lemma_hunter(rs, st, hs[0]);
    let j = choose|j: int| 0 <= j < hs.len() && cls(#[trigger] hs[j]) == h;
    lemma_hunter(rs, st, hs[j]);
    assert(leads_as(rs, hs[j].place_bells@[0].index as int, h));
    assert forall|b: int, h2: HuntBellClass| #[trigger] leads_as(rs, b, h2) implies dominance(h) <= dominance(h2) by {
        assert(some_hunter(hs, b));
        let i = choose|i: int| 0 <= i < hs.len() && (#[trigger] hs[i]).place_bells@[0].index == b;
        lemma_hunter(rs, st, hs[i]);
    }
    assert(dominant(rs, h));
    if forall|b: int| #[trigger] leads_as(rs, b, h) ==> little(path(rs, b), st) {
        assert forall|i: int| 0 <= i < hs.len() && cls(#[trigger] hs[i]) == h implies little(hs[i].full_path@, st) by { lemma_hunter(rs, st, hs[i]); assert(leads_as(rs, hs[i].place_bells@[0].index as int, h)); }
    }
    if all_little(hs, hs.len() as int, h, st) {
        assert forall|b: int| #[trigger] leads_as(rs, b, h) implies little(path(rs, b), st) by {
            assert(some_hunter(hs, b));
            let i = choose|i: int| 0 <= i < hs.len() && (#[trigger] hs[i]).place_bells@[0].index == b;
            lemma_hunter(rs, st, hs[i]);
        }
    }
}

@fn method::class::FullClass::classify
    requires first_lead.ok(), first_lead.annots@.len() > 0, first_lead.rs()[0] == rounds_seq(first_lead.st())
    ensures classified(first_lead.rs(), res)
@fn method::class::classify
    requires first_lead.ok(), first_lead.annots@.len() > 0, first_lead.rs()[0] == rounds_seq(first_lead.st())
    ensures classified(first_lead.rs(), res)
@closure 0 |w: (&Cycle, &Cycle)| -> (r: bool) ensures r == (w.0.place_bells@.len() == w.1.place_bells@.len())
@closure 1 |cycle: &&Cycle| -> (r: Bell) requires cycle.hunts() ensures r == cycle.place_bells@[0]
@closure 2 |cycle: &&Cycle| -> (r: bool) requires cycle.hunts() ensures r == !hunt_bells_in_best_class@.contains(cycle.place_bells@[0])
@loop 0
    invariant xs_0 == ref_seq(hs.skip(1)), hs == hunt_cycles@, rs == first_lead.rs(), hs.len() > 0, hunters(hs, first_lead.rs()), leadlike(first_lead.rs(), first_lead.st()), stage == first_lead.rows.stage,
        best_of(hs, k_0 + 1, best_hunt_bell_class), best_is_little == all_little(hs, k_0 + 1, best_hunt_bell_class, first_lead.st()), picked(hunt_cycles_in_best_class@, hs, k_0 + 1, best_hunt_bell_class)
@hint start
    hide(joined); hide(linked); hide(path_class); hide(differential); hide(bobbed); hide(Cycle::of);
    proof { crate::block::lemma_rows(first_lead); }
@hint before let all_working_cycles_equal_length
    let ghost hs = hunt_cycles@;
    let ghost ws = working_cycles@;
    let ghost rs = first_lead.rs();
    proof { lemma_partition(rs, first_lead.st(), cycles@, hs, ws); }
@hint before let is_differential
    proof {
        assert(all_working_cycles_equal_length == same_lengths(ws)) by { assert forall|i: int| 0 <= i < ws.len() - 1 implies crate::vf::ix(i) && #[trigger] ws[i] == *ref_seq(ws)[i] by {} }
        lemma_differential(rs, first_lead.st(), ws);
    }
@hint before return 0
    proof { assert forall|b: int| !#[trigger] hunt(rs, b) by { if hunt(rs, b) { assert(some_hunter(hs, b)); } } }
@hint before call classify_hunt_cycle#0
    proof { lemma_hunter(rs, first_lead.st(), hs[0]); }
@hint loop 0 start
    let ghost (h0, l0, ps0) = (best_hunt_bell_class, best_is_little, hunt_cycles_in_best_class@);
    proof { assert(cycle == hs[k_0]); lemma_hunter(rs, first_lead.st(), hs[k_0]); }
@hint loop 0 end
    proof { lemma_best(hs, k_0, first_lead.st(), h0, best_hunt_bell_class, l0, best_is_little, ps0, hunt_cycles_in_best_class@); }
@hint closure 2 start
    proof {
        let s = hunt_bells_in_best_class@; let b = cycle.place_bells@[0];
        if s.contains(b) { let i = choose|i: int| 0 <= i < s.len() && s[i] == b; assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[i], &b)); }
    }
@hint before call sub_classify_plain
    proof {
        assert forall|m: int| 0 <= m < hcb.len() implies #[trigger] hunt_bells_in_best_class@[m] == hcb[m].place_bells@[0] by { assert(crate::vf::ix(m)); }
        lemma_others(rs, first_lead.st(), hs, ws, hcb, hunt_bells_in_best_class@, cycles@);
        lemma_bobbed(rs, first_lead.st(), cycles@);
        assert forall|k: int, i: int| 0 <= k < cycles@.len() && 0 <= i < cycles@[k].full_path@.len() implies (#[trigger] cycles@[k].full_path@[i]) < usize::MAX by { assert(cycles@[k].of(rs)); lemma_places(rs, first_lead.st(), *cycles@[k], i); }
    }
@hint before call sub_classify_treble_dodging
    proof { lemma_picked(rs, first_lead.st(), hs, hcb, best); lemma_cross_section(rs, first_lead.st(), hs, hcb); }
@hint end
    proof {
        lemma_classified(rs, first_lead.st(), hs, hcb, best, res); }
@hint before let hunt_bells_in_best_class
    let ghost best = best_hunt_bell_class;
    let ghost hcb = hunt_cycles_in_best_class@;
    proof { assert forall|k: int| 0 <= k < hcb.len() implies (#[trigger] hcb[k]).hunts() by { let j = choose|j: int| 0 <= j < hs.len() && hcb[k] == &#[trigger] hs[j] && cls(hs[j]) == best; } }
@fn method::class::sub_classify_treble_dodging
    requires first_lead.ok(), first_lead.annots@.len() > 0, forall|k: int| 0 <= k < hunt_cycles@.len() ==> (#[trigger] hunt_cycles@[k]).full_path@.len() == first_lead.annots@.len()
    ensures dodging_class(res, forall|i: int| #[trigger] some_cross(hunt_cycles@, i) ==> internal(first_lead.rs(), i), forall|i: int| #[trigger] some_cross(hunt_cycles@, i) ==> !internal(first_lead.rs(), i))
@closure 0 |w: (&usize, &usize)| -> (r: bool) requires *w.0 >= min_place && *w.1 >= min_place ensures r == split(*w.0 as int, *w.1 as int, min_place as int)
@closure 1 |place: usize| -> (r: bool) requires place < r1@.len() && place < r2@.len() ensures r == (r1@[place as int] == r2@[place as int])
@loop 0
    invariant xs_0 == ref_seq(hunt_cycles@), forall|k: int| 0 <= k < hunt_cycles@.len() ==> (#[trigger] hunt_cycles@[k]).full_path@.len() == first_lead.annots@.len(), first_lead.annots@.len() > 0,
        forall|i: int| #[trigger] some_cross(hunt_cycles@.take(k_0), i) ==> 0 <= i < first_lead.annots@.len() && cross_indices@.contains(i as usize), forall|i: usize| #[trigger] cross_indices@.contains(i) ==> some_cross(hunt_cycles@.take(k_0), i as int)
@loop 1
    invariant first_lead.ok(), last_place == first_lead.st() - 1, forall|i: int| 0 <= i < xs_1.len() ==> (#[trigger] xs_1[i]) < first_lead.annots@.len() && some_cross(hunt_cycles@, xs_1[i] as int), forall|i: int| #[trigger] some_cross(hunt_cycles@, i) ==> 0 <= i <= usize::MAX && xs_1.contains(i as usize),
        all_internal_places == (forall|i: int| 0 <= i < k_1 ==> internal(first_lead.rs(), #[trigger] xs_1[i] as int)), all_no_internal_places == (forall|i: int| 0 <= i < k_1 ==> !internal(first_lead.rs(), #[trigger] xs_1[i] as int))
@hint loop 0 start
    let ghost p = cycle.full_path@;
    let ghost before = cross_indices@;
    proof { assert(hunt_cycles@[k_0 - 1] == cycle); assert(ref_seq(p)[0] == &p[0]); }
@hint before call extend
    proof {
        assert forall|j: int| 0 <= j < p.len() implies #[trigger] p[j] >= min_place by { assert(crate::vf::ix(j)); assert(*ref_seq(p)[j] == p[j]); }
        let m = choose|i: int| 0 <= i < ref_seq(p).len() && min_place == *#[trigger] ref_seq(p)[i];
        assert(p[m] == min_place);
        assert(least_of(p, min_place as int));
        lemma_windows(p);
        let ws: Seq<(&usize, &usize)> = windows(p);
        assert forall|i: int| 0 <= i < p.len() implies *(#[trigger] ws[i]).0 >= min_place && *ws[i].1 >= min_place by { assert(*windows(p)[i].0 == p[i]); assert(p[i] >= min_place); assert(p[wrap(i + 1, p.len() as int)] >= min_place); }
    }
@hint loop 0 end
    proof {
        assert forall|i: usize| #[trigger] cross_indices@.contains(i) <==> before.contains(i) || crosses_from(p, min_place as int, i as int) by { assert(crate::vf::ix(i as int)); if i < p.len() { let ws: Seq<(&usize, &usize)> = windows(p); assert(*ws[i as int].0 == p[i as int]); } }
        lemma_cross(hunt_cycles@, k_0, p, min_place as int, before, cross_indices@); }
@hint before let all_internal_places
    proof { assert(hunt_cycles@.take(hunt_cycles@.len() as int) =~= hunt_cycles@); crate::block::lemma_rows(first_lead); }
@hint loop 1 before
    proof {
        let o = cross_indices.order();
        assert forall|i: usize| #[trigger] cross_indices@.contains(i) implies deref_seq(o).contains(i) by { let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k])@ == i; assert(deref_seq(o)[k] == i); }
        assert forall|k: int| 0 <= k < o.len() implies #[trigger] deref_seq(o)[k] < first_lead.annots@.len() && some_cross(hunt_cycles@, deref_seq(o)[k] as int) by { assert(cross_indices@.contains(o[k]@)); }
    }
@hint loop 1 start
    proof { assert(i < first_lead.annots@.len()); assert(first_lead.annots.len() == first_lead.annots@.len()); crate::block::lemma_rows(first_lead); }
@hint loop 1 end
    proof {
        let rs = first_lead.rs();
        if internal(rs, i as int) { let q = choose|q: int| 0 < q < rs[0].len() - 1 && #[trigger] rs[i as int][q] == rs[i + 1][q]; assert(crate::vf::ix(q - 1)); assert(range_seq(1, last_place as int)[q - 1] == q); }
        if has_internal_places { assert(internal(rs, i as int)); }
        assert(has_internal_places == internal(rs, i as int));
        assert(xs_1[k_1 - 1] == i);
    }
@hint end
    proof {
        let rs = first_lead.rs();
        assert(all_internal_places == (forall|i: int| #[trigger] some_cross(hunt_cycles@, i) ==> internal(rs, i)));
        assert(all_no_internal_places == (forall|i: int| #[trigger] some_cross(hunt_cycles@, i) ==> !internal(rs, i)));
    }
@fn method::class::classify_hunt_cycle
    requires cycle.full_path@.len() > 0, stage.0 > 0, forall|i: int| 0 <= i < cycle.full_path@.len() ==> (#[trigger] cycle.full_path@[i]) < stage.0
    ensures res.0 == little(cycle.full_path@, stage.0 as int), res.1 == path_class(cycle.full_path@)
@closure 0 |v: &&usize| -> (r: bool) ensures r == (**v > 0)
@closure 1 |n: &usize| -> (r: bool) ensures r == (*n == 0 || *n == 2)
@closure 2 |w: &(&usize, &usize)| -> (r: bool) ensures r == (*w.0 == *w.1)
@closure 3 |v: &&usize| -> (r: bool) ensures r == (**v != 0)
@closure 4 |w: (&usize, &usize)| -> (r: bool) ensures r == (*w.0 == *w.1)
@loop 0
    invariant xs_0 == ref_seq(cycle.full_path@), cycle.full_path@.len() <= usize::MAX, num_rows_in_each_place@.len() == stage.0, forall|i: int| 0 <= i < cycle.full_path@.len() ==> (#[trigger] cycle.full_path@[i]) < stage.0,
        forall|q: int| 0 <= q < stage.0 ==> #[trigger] num_rows_in_each_place@[q] == num(stays(cycle.full_path@, q), k_0)
@hint loop 0 start
    proof { lemma_num_bound(stays(cycle.full_path@, *p as int), k_0 - 1); }
@hint before let is_little
    let ghost p = cycle.full_path@;
    let ghost c = num_rows_in_each_place@;
    proof {
        assert(counts(p, stage.0 as int, c));
        lemma_counts(p, stage.0 as int, c);
        lemma_stationary(p, stage.0 as int, c); lemma_twice(p, stage.0 as int, c); lemma_evenly(p, stage.0 as int, c); lemma_blows(p);
    }
@hint before let is_stationary
    proof { if c.contains(0usize) { let q = choose|q: int| 0 <= q < c.len() && c[q] == 0usize; assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&c[q], &0usize)); } assert(is_little == little(p, stage.0 as int)); }
@hint before let are_places_visited_exactly_twice
    proof { assert(is_stationary == stationary(p)); assert forall|q: int| 0 <= q < c.len() implies *ref_seq(c)[q] == #[trigger] c[q] by {} }
@hint before let is_path_palindromic
    proof { assert(are_places_visited_exactly_twice == twice_each(p)); }
@hint before let class
    proof {
        assert(num_places_made == blows(p));
        let ks = crate::vf::keep(ref_seq(c), positive());
        assert forall|j: int| 0 <= j < ks.len() - 1 implies crate::vf::ix(j) && #[trigger] ks[j] == ks[j] by {}
        assert(are_all_places_equally_covered == evenly(p));
    }
@hint start
    proof { assert(cycle.full_path.len() == cycle.full_path@.len()); }
@fn method::class::sub_classify_plain
    requires forall|k: int, i: int| 0 <= k < working_bell_cycles@.len() && 0 <= i < working_bell_cycles@[k].full_path@.len() ==> (#[trigger] working_bell_cycles@[k].full_path@[i]) < usize::MAX
    ensures res == (if exists|k: int| 0 <= k < working_bell_cycles@.len() && some_turn((#[trigger] working_bell_cycles@[k]).full_path@) { Class::Bob } else { Class::Place })
@loop 0
    invariant xs_0 == working_bell_cycles@, forall|k: int| 0 <= k < k_0 ==> !some_turn((#[trigger] working_bell_cycles@[k]).full_path@),
        forall|k: int, i: int| 0 <= k < working_bell_cycles@.len() && 0 <= i < working_bell_cycles@[k].full_path@.len() ==> (#[trigger] working_bell_cycles@[k].full_path@[i]) < usize::MAX
@loop 1
    invariant xs_0 == working_bell_cycles@, 0 < k_0 <= xs_0.len(), cycle == xs_0[k_0 - 1], xs_1 == Seq::new(cycle.full_path@.len(), |i: int| crate::vf::VfWindow::window(cycle.full_path@, i)),
        forall|i: int| 0 <= i < k_1 ==> !#[trigger] turn_at(cycle.full_path@, i), forall|i: int| 0 <= i < cycle.full_path@.len() ==> (#[trigger] cycle.full_path@[i]) < usize::MAX
@hint loop 1 before
    proof { assert(deref_seq(ref_seq(cycle.full_path@)) =~= cycle.full_path@);
        assert forall|i: int| 0 <= i < cycle.full_path@.len() implies (#[trigger] cycle.full_path@[i]) < usize::MAX by { assert(working_bell_cycles@[k_0 - 1].full_path@[i] < usize::MAX); } }
@hint loop 1 start
    proof { crate::vf::lemma_wrap(k_1, cycle.full_path@.len() as int); crate::vf::lemma_wrap(k_1 + 1, cycle.full_path@.len() as int); }
@hint before return 0
    proof { assert(turn_at(cycle.full_path@, k_1 - 1)); assert(some_turn(working_bell_cycles@[k_0 - 1].full_path@)); }
@fn method::class::is_palindromic
    ensures res == palindrome(path@)
@closure 0 |p: (&usize, &usize)| -> (r: bool) ensures r == (*p.0 == *p.1)
@loop 0
    invariant path@.len() <= usize::MAX, xs_0 == range_seq(0, path@.len() as int), forall|j: int| 0 <= j < k_0 ==> !#[trigger] mirror(path@, j)
@hint loop 0 start
    proof { lemma_mirror(path@, i as int);}
@hint loop 0 end
    proof { let n = path@.len() as int;
        assert(exists|t: int| 0 <= t < n && *rev_seq(ref_seq(path@))[(0 + i + t) % n] != *#[trigger] ref_seq(path@)[t]);
        assert(!mirror(path@, i as int)); }
@hint before return 0
    proof { assert forall|t: int| 0 <= t < path@.len() implies path@[path@.len() - 1 - (i + t) % path@.len() as int] == #[trigger] path@[t] by { assert(crate::vf::ix(t)); } assert(mirror(path@, i as int)); }
@fn method::class::Cycle::cycles_from_lead
    requires first_lead.ok(), first_lead.annots@.len() > 0, first_lead.rs()[0] == rounds_seq(first_lead.st())
    ensures cycles_of(res@, first_lead.rs()), forall|b: int| is_bell(first_lead.rs(), b) ==> #[trigger] covers(res@, b)
@closure 0 |v: &bool| -> (r: bool) ensures r == *v
@loop 0
    invariant first_lead.ok(), leadlike(first_lead.rs(), first_lead.st()), bells_left@.len() == first_lead.st(), cycles_of(cycles@, first_lead.rs()),
        forall|b: int| 0 <= b < first_lead.st() && !bells_left@[b] ==> #[trigger] covers(cycles@, b),
        forall|b: int| 0 <= b < first_lead.st() && #[trigger] bells_left@[b] ==> bells_left@[nx(first_lead.rs(), b)]
    ensures forall|b: int| is_bell(first_lead.rs(), b) ==> #[trigger] covers(cycles@, b)
    decreases num(left(bells_left@), bells_left@.len() as int)
@loop 1
    invariant_except_break bells_left@[place_bell.index as int], follows(first_lead.rs(), place_bells_in_cycle@, starting_bell, place_bell)
    invariant first_lead.ok(), leadlike(first_lead.rs(), first_lead.st()), bells_left@.len() == first_lead.st(), before.len() == first_lead.st(), starting_bell.index < first_lead.st(), place_bell.index < first_lead.st(),
        begins(place_bells_in_cycle@, starting_bell), chained(first_lead.rs(), place_bells_in_cycle@), full_path@ == joined(first_lead.rs(), place_bells_in_cycle@),
        forall|b: int| 0 <= b < first_lead.st() && #[trigger] before[b] ==> before[nx(first_lead.rs(), b)],
        taken(before, bells_left@, place_bells_in_cycle@), num(left(bells_left@), bells_left@.len() as int) <= num(left(before), before.len() as int)
    ensures place_bells_in_cycle@.len() > 0, linked(first_lead.rs(), place_bells_in_cycle@), 0 <= num(left(bells_left@), bells_left@.len() as int) < num(left(before), before.len() as int)
    decreases num(left(bells_left@), bells_left@.len() as int)
@hint loop 0 before
    proof { assert forall|b: int| 0 <= b < first_lead.st() && #[trigger] bells_left@[b] implies bells_left@[nx(first_lead.rs(), b)] by { lemma_nx(first_lead.rs(), first_lead.st(), b, b); } }
@hint loop 0 top
    proof { assert forall|i: int| 0 <= i < bells_left@.len() implies *ref_seq(bells_left@)[i] == #[trigger] bells_left@[i] by {} }
@hint loop 0 start
    let ghost before = bells_left@;
    let ghost cycles0 = cycles@;
@hint loop 1 start
    let ghost left0 = bells_left@;
    let ghost pb0 = place_bells_in_cycle@;
    let ghost path0 = full_path@;
    let ghost cur = place_bell;
@hint after call from_index#1
    proof { lemma_next(first_lead.rs(), first_lead.st(), before, left0, bells_left@, pb0, cur, place_bell, starting_bell); }
@hint loop 0 end
    proof { lemma_cycle_done(first_lead.rs(), first_lead.st(), before, bells_left@, place_bells_in_cycle@, cycles0, cycles@); }
@hint start
    proof { crate::block::lemma_rows(first_lead); }
@fn method::class::Cycle::is_hunt
    ensures res == self.hunts()
@fn method::class::Cycle::as_hunt_bell
    ensures res == (if self.hunts() { Some(self.place_bells@[0]) } else { None })
@fn method::class::Cycle::num_leads
    ensures res == self.place_bells@.len()
@fn method::class::Cycle::partition_cycles
    ensures res.0@ == keep(cycles@, hunting(true)), res.1@ == keep(cycles@, hunting(false))
@loop 0
    invariant xs_0 == cycles@, hunt_cycles@ == keep(cycles@.take(k_0), hunting(true)), working_cycles@ == keep(cycles@.take(k_0), hunting(false))
@hint loop 0 start
    proof { assert(cycles@.take(k_0).drop_last() =~= cycles@.take(k_0 - 1)); assert(cycles@.take(k_0).last() == cycle); }
@hint end
    proof { assert(cycles@.take(cycles@.len() as int) =~= cycles@); }
