@mod music
/// Ways to fill the wildcards and globs of a pattern with n different bells, using each once
pub open spec fn fill(e: Pat, n: int) -> int decreases e.len(), n {
    if n < 0 { 0 } else if e.len() == 0 { if n == 0 { 1 } else { 0 } } else {
        match e[0] {
            RegexElem::Bell(b) => fill(e.skip(1), n),
            // any of the bells, then the rest
            RegexElem::Any => n * fill(e.skip(1), n - 1),
            // nothing more, or one more bell first
            RegexElem::Glob => fill(e.skip(1), n) + (if n > 0 { n * fill(e, n - 1) } else { 0 }),
        }
    }
}
pub open spec fn all_in(e: Pat, n: int) -> bool { forall|i: int| 0 <= i < bells_of(e).len() ==> (#[trigger] bells_of(e)[i]).index < n }
/// The number of rows of n bells that a pattern matches
pub open spec fn count(e: Pat, n: int) -> int { if bells_of(e).no_duplicates() && all_in(e, n) { fill(e, n - bells_of(e).len()) } else { 0 } }
pub open spec fn num_any(e: Pat) -> int decreases e.len() { if e.len() == 0 { 0 } else { num_any(e.drop_last()) + (if e.last() is Any { 1int } else { 0 }) } }
pub open spec fn num_glob(e: Pat) -> int decreases e.len() { if e.len() == 0 { 0 } else { num_glob(e.drop_last()) + (if e.last() is Glob { 1int } else { 0 }) } }
/// m * (m - 1) * ... (i factors)
pub open spec fn ff(m: int, i: int) -> int decreases i { if i <= 0 { 1 } else { m * ff(m - 1, i - 1) } }
/// Ways to spread x different bells over j globs
pub open spec fn spread(x: int, j: int) -> int decreases x, j { if x <= 0 { 1 } else if j <= 0 { 0 } else { spread(x, j - 1) + x * spread(x - 1, j) } }
pub open spec fn ways(i: int, j: int, m: int) -> int { if m < i { 0 } else { ff(m, i) * spread(m - i, j) } }
pub proof fn lemma_fact_pos(n: int) ensures fact(n) >= 1 decreases n { if n > 0 { lemma_fact_pos(n - 1); assert(n * fact(n - 1) >= 1) by(nonlinear_arith) requires n >= 1, fact(n - 1) >= 1; } }
pub proof fn lemma_ff_fact(m: int, i: int)
    requires 0 <= i <= m
    ensures ff(m, i) * fact(m - i) == fact(m), ff(m, i) >= 1
    decreases i
{
    lemma_fact_pos(m);
    if i > 0 {
        lemma_ff_fact(m - 1, i - 1);
        assert(m * ff(m - 1, i - 1) * fact(m - i) == m * (ff(m - 1, i - 1) * fact(m - i))) by(nonlinear_arith);
        assert(m * ff(m - 1, i - 1) >= 1) by(nonlinear_arith) requires m >= 1, ff(m - 1, i - 1) >= 1;
    }
}
/// One more factor, at the end
pub proof fn lemma_ff_step(m: int, i: int)
    requires 0 <= i <= m
    ensures ff(m, i + 1) == ff(m, i) * (m - i)
    decreases i
{
    if i > 0 {
        lemma_ff_step(m - 1, i - 1);
        assert(ff(m, i + 1) == m * ff(m - 1, i));
        assert(m * (ff(m - 1, i - 1) * (m - i)) == m * ff(m - 1, i - 1) * (m - i)) by(nonlinear_arith);
    } else { assert(ff(m, 1) == m * ff(m - 1, 0)); }
}
pub proof fn lemma_spread(x: int, j: int)
    requires 0 <= x, 1 <= j
    ensures spread(x, j) * fact(j - 1) == fact(x + j - 1)
    decreases x, j
{
    if x > 0 {
        lemma_spread(x - 1, j);
        let (a, b, f) = (spread(x, j - 1), spread(x - 1, j), fact(j - 1));
        assert((a + x * b) * f == a * f + x * (b * f)) by(nonlinear_arith);
        if j > 1 {
            lemma_spread(x, j - 1);
            let g = fact(j - 2);
            assert(f == (j - 1) * g);
            assert(a * ((j - 1) * g) == (j - 1) * (a * g)) by(nonlinear_arith);
            let h = fact(x + j - 2);
            assert((j - 1) * h + x * h == (x + j - 1) * h) by(nonlinear_arith);
        } else { assert(a == 0); assert(fact(x) == x * fact(x - 1)); assert(0 * f == 0); }
    } else { assert(1 * fact(j - 1) == fact(j - 1)); }
}
pub proof fn lemma_ways_glob(i: int, j: int, m: int)
    requires 0 <= i, 0 <= j, 0 <= m
    ensures ways(i, j + 1, m) == ways(i, j, m) + m * ways(i, j + 1, m - 1), ways(i + 1, j, m) == m * ways(i, j, m - 1)
{
    let x = m - i;
    if m < i { assert(m * 0 == 0); }
    else if m == i { assert(ff(m, i) * 1 == ff(m, i)); assert(m * 0 == 0); }
    else {
        lemma_ff_step(m, i);
        assert(ff(m, i + 1) == m * ff(m - 1, i));
        let (a, b, c, d) = (ff(m, i), spread(x, j), spread(x - 1, j + 1), ff(m - 1, i));
        assert(a * (b + x * c) == a * b + (a * x) * c) by(nonlinear_arith);
        assert((m * d) * c == m * (d * c)) by(nonlinear_arith);
        let e = spread(x - 1, j);
        assert((m * d) * e == m * (d * e)) by(nonlinear_arith);
    }
}
pub proof fn lemma_num_first(e: Pat)
    requires e.len() > 0
    ensures num_any(e) == num_any(e.skip(1)) + (if e[0] is Any { 1int } else { 0 }), num_glob(e) == num_glob(e.skip(1)) + (if e[0] is Glob { 1int } else { 0 })
    decreases e.len()
{
    if e.len() == 1 { assert(e.drop_last() =~= Seq::empty()); assert(e.skip(1) =~= Seq::empty()); } else {
        let d = e.drop_last();
        lemma_num_first(d);
        assert(e.skip(1).drop_last() =~= d.skip(1));
    }
}
pub proof fn lemma_num_pos(e: Pat) ensures num_any(e) >= 0, num_glob(e) >= 0, num_any(e) + num_glob(e) + bells_of(e).len() == e.len() decreases e.len() { if e.len() > 0 { lemma_num_pos(e.drop_last()); } }
/// The number of ways depends only on how many wildcards and globs there are
pub proof fn lemma_fill(e: Pat, m: int)
    requires 0 <= m
    ensures fill(e, m) == ways(num_any(e), num_glob(e), m)
    decreases e.len(), m
{
    lemma_num_pos(e);
    if e.len() > 0 {
        lemma_num_first(e);
        let t = e.skip(1);
        lemma_num_pos(t);
        lemma_fill(t, m);
        let (i, j) = (num_any(t), num_glob(t));
        lemma_ways_glob(i, j, m);
        match e[0] {
            RegexElem::Bell(b) => {},
            RegexElem::Any => { if m > 0 { lemma_fill(t, m - 1); } else { assert(m * fill(t, m - 1) == 0); assert(m * ways(i, j, m - 1) == 0); } },
            RegexElem::Glob => { if m > 0 { lemma_fill(e, m - 1); } else { assert(m * ways(i, j + 1, m - 1) == 0); } },
        }
    } else { assert(ways(0, 0, m) == ff(m, 0) * spread(m, 0)); assert(ff(m, 0) == 1); }
}
/// There are at most as many globs as fixed bells, plus one
pub proof fn lemma_globs(e: Pat)
    requires normal(e)
    ensures num_glob(e) <= bells_of(e).len() + (if e.len() > 0 && e.last() is Glob { 1int } else { 0 })
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_last();
        assert forall|i: int| 0 <= i < d.len() - 1 && (#[trigger] d[i]) is Glob implies d[i + 1] is Bell by { assert(e[i] is Glob); }
        lemma_globs(d);
        if d.len() > 0 && d.last() is Glob { assert(e[d.len() - 1] is Glob); }
    }
}
/// Different bells of a stage are at most as many as the stage
pub proof fn lemma_pigeon(s: Seq<Bell>, n: int)
    requires s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).index < n
    ensures s.len() <= n || s.len() == 0
    decreases n
{
    if s.len() > 0 {
        assert(s[0].index < n);
        let last = Bell { index: (n - 1) as usize };
        if s.contains(last) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == last;
            let t = s.remove(i);
            assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { let a2 = if a < i { a } else { a + 1 }; let b2 = if b < i { b } else { b + 1 }; assert(s[a2] != s[b2]); }
            assert forall|a: int| 0 <= a < t.len() implies (#[trigger] t[a]).index < n - 1 by { let a2 = if a < i { a } else { a + 1 }; assert(s[a2].index < n); assert(s[a2] != s[i]); }
            lemma_pigeon(t, n - 1);
        } else {
            assert forall|a: int| 0 <= a < s.len() implies (#[trigger] s[a]).index < n - 1 by { assert(s[a] != last); }
            lemma_pigeon(s, n - 1);
        }
    }
}
pub proof fn lemma_bells_member(e: Pat, b: Bell)
    ensures bells_of(e).contains(b) == e.contains(RegexElem::Bell(b))
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_last();
        lemma_bells_member(d, b);
        let s = bells_of(e);
        if e.contains(RegexElem::Bell(b)) { let i = choose|i: int| 0 <= i < e.len() && e[i] == RegexElem::Bell(b); if i < d.len() { assert(d[i] == RegexElem::Bell(b)); let j = choose|j: int| 0 <= j < bells_of(d).len() && bells_of(d)[j] == b; assert(s[j] == b); } else { assert(s[s.len() - 1] == b); } }
        if s.contains(b) { let j = choose|j: int| 0 <= j < s.len() && s[j] == b; if j < bells_of(d).len() { assert(bells_of(d)[j] == b); let i = choose|i: int| 0 <= i < d.len() && d[i] == RegexElem::Bell(b); assert(e[i] == RegexElem::Bell(b)); } else { assert(e[e.len() - 1] == RegexElem::Bell(b)); } }
    }
}
/// What follows doesn't undo a repeated or foreign bell
pub proof fn lemma_bells_prefix(e: Pat, i: int)
    requires 0 <= i <= e.len()
    ensures bells_of(e.take(i)).len() <= bells_of(e).len(), bells_of(e).take(bells_of(e.take(i)).len() as int) == bells_of(e.take(i))
    decreases e.len()
{
    if i == e.len() { assert(e.take(i) =~= e); assert(bells_of(e).take(bells_of(e).len() as int) =~= bells_of(e)); } else {
        let d = e.drop_last();
        lemma_bells_prefix(d, i);
        assert(d.take(i) =~= e.take(i));
        let k = bells_of(d.take(i)).len() as int;
        assert(bells_of(e).take(k) =~= bells_of(d).take(k));
    }
}
pub proof fn lemma_bad(e: Pat, i: int, n: int)
    requires 0 <= i < e.len(), e[i] is Bell, e[i]->Bell_0.index >= n || e.take(i).contains(e[i])
    ensures count(e, n) == 0
{
    let b = e[i]->Bell_0;
    lemma_bells_prefix(e, i + 1);
    assert(e.take(i + 1).drop_last() =~= e.take(i));
    let (s, t) = (bells_of(e), bells_of(e.take(i)));
    let k = t.len() as int;
    assert(s.take(k + 1)[k] == b); assert(s[k] == b);
    if e.take(i).contains(e[i]) {
        lemma_bells_member(e.take(i), b);
        let j = choose|j: int| 0 <= j < t.len() && t[j] == b;
        assert(s.take(k + 1)[j] == t[j]); assert(s[j] == b);
    }
}
pub proof fn lemma_choose_parts(n: int, k: int)
    requires 0 <= k <= n
    ensures ff(n, k) * fact(n - k) == fact(n), exists|c: int| #[trigger] (c * fact(k)) == ff(n, k) && c >= 1
    decreases n
{
    lemma_ff_fact(n, k);
    if k == 0 { assert(1 * fact(0) == ff(n, 0)); } else {
        let f = fact(k - 1);
        // ff(n, k) = n * ff(n-1, k-1) is a multiple of k!: by Pascal's rule
        if k == n { lemma_ff_all(n); assert(1 * fact(n) == ff(n, n)); } else {
            lemma_choose_parts(n - 1, k - 1); lemma_choose_parts(n - 1, k);
            let a = choose|c: int| #[trigger] (c * fact(k - 1)) == ff(n - 1, k - 1) && c >= 1;
            let b = choose|c: int| #[trigger] (c * fact(k)) == ff(n - 1, k) && c >= 1;
            lemma_ff_step(n - 1, k - 1);
            let x = ff(n - 1, k - 1);
            assert(fact(k) == k * f);
            assert((a + b) * (k * f) == k * (a * f) + b * (k * f)) by(nonlinear_arith);
            assert(k * x + x * (n - k) == n * x) by(nonlinear_arith);
            assert((a + b) * fact(k) == ff(n, k));
        }
    }
}
pub proof fn lemma_ff_all(n: int) requires 0 <= n ensures ff(n, n) == fact(n) decreases n { if n > 0 { lemma_ff_all(n - 1); } }
pub proof fn lemma_ff_mono(n: int, i: int, k: int)
    requires 0 <= i <= k <= n
    ensures 1 <= ff(n, i) <= ff(n, k)
    decreases k - i
{ lemma_ff_fact(n, i); if i < k { lemma_ff_mono(n, i, k - 1); lemma_ff_step(n, k - 1); let x = ff(n, k - 1); assert(x * (n - (k - 1)) >= x) by(nonlinear_arith) requires x >= 1, n - (k - 1) >= 1; } }
/// The product from n-k+1 up, and what is left of it
pub open spec fn upto(n: int, k: int, i: int) -> int { ff(n - k + i, i) }
pub proof fn lemma_upto(n: int, k: int, i: int)
    requires 0 <= i < k, k <= n - k
    ensures upto(n, k, i + 1) == upto(n, k, i) * (n - k + (i + 1)), upto(n, k, k) == ff(n, k), fact(i + 1) == fact(i) * (i + 1), 1 <= fact(i) <= upto(n, k, i), upto(n, k, i + 1) <= ff(n, k), fact(i) * (i + 1) <= upto(n, k, i) * (n - k + (i + 1))
{
    let m = n - k + (i + 1);
    assert(ff(m, i + 1) == m * ff(m - 1, i));
    assert(m * ff(m - 1, i) == ff(m - 1, i) * m) by(nonlinear_arith);
    assert(fact(i + 1) == (i + 1) * fact(i)); assert((i + 1) * fact(i) == fact(i) * (i + 1)) by(nonlinear_arith);
    lemma_fact_pos(i); lemma_upto_ge(n, k, i);
    lemma_upto_le(n, k, i + 1);
    assert(fact(i) * (i + 1) <= upto(n, k, i) * m) by(nonlinear_arith) requires 1 <= fact(i) <= upto(n, k, i), i + 1 <= m, 0 <= i;
}
pub proof fn lemma_upto_ge(n: int, k: int, i: int)
    requires 0 <= i <= k, k <= n - k
    ensures fact(i) <= upto(n, k, i)
    decreases i
{ if i > 0 { lemma_upto_ge(n, k, i - 1); lemma_fact_pos(i - 1); let (a, b, m) = (fact(i - 1), upto(n, k, i - 1), n - k + i); assert(ff(m, i) == m * ff(m - 1, i - 1)); assert(i * a <= m * b) by(nonlinear_arith) requires 1 <= a <= b, 1 <= i <= m; } }
pub proof fn lemma_upto_le(n: int, k: int, i: int)
    requires 0 <= i <= k, k <= n - k
    ensures upto(n, k, i) <= ff(n, k)
    decreases k - i
{
    if i < k { lemma_upto_le(n, k, i + 1); let m = n - k + (i + 1); assert(ff(m, i + 1) == m * ff(m - 1, i)); lemma_ff_fact(m - 1, i); let x = ff(m - 1, i); assert(m * x >= x) by(nonlinear_arith) requires m >= 1, x >= 1; }
}
/// What the quotient is
pub proof fn lemma_quotient(n: int, k: int, a: int, b: int)
    requires 0 <= k <= n, a == ff(n, k), b == fact(k)
    ensures b >= 1, (a / b) * b == a, (a / b) * fact(k) * fact(n - k) == fact(n)
{
    lemma_choose_parts(n, k); lemma_fact_pos(k);
    let c = choose|c: int| #[trigger] (c * fact(k)) == ff(n, k) && c >= 1;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(c, b);
    assert(c * b == b * c) by(nonlinear_arith);
}
@fn utils::choice
    requires k <= n
    ensures match res { Some(v) => v * fact(k as int) * fact(n - k) == fact(n as int), None => ff(n as int, small(n as int, k as int)) > usize::MAX }
@attr #[verifier::loop_isolation(false)]
@hint start
    let ghost k0 = k;
@loop 0
    invariant k == small(n as int, k0 as int), k0 <= n, xs_0 == range_seq(1, k + 1), xs_0.len() == k, numerator == upto(n as int, k as int, k_0), denominator == fact(k_0), k_0 <= k
@hint loop 0 start
    proof { assert(i == k_0); lemma_upto(n as int, k as int, k_0 - 1); assert(upto(n as int, k as int, k_0 - 1) * (n - k + ((k_0 - 1) + 1)) == numerator * (n - k + i)); assert(fact(k_0 - 1) * ((k_0 - 1) + 1) == denominator * i); assert(numerator * (n - k + i) <= ff(n as int, k as int)); assert(k == small(n as int, k0 as int)); }
@hint loop 0 after
    proof { lemma_quotient(n as int, k as int, numerator as int, denominator as int); }
@hint end
    proof { lemma_quotient(n as int, k as int, numerator as int, denominator as int); let v = res->0; assert(v * fact(k as int) * fact(n - k) == v * fact(n - k) * fact(k as int)) by(nonlinear_arith); }
@mod utils
use crate::music::*;
use crate::vf::*;
pub open spec fn small(n: int, k: int) -> int { if k <= n - k { k } else { n - k } }
@fn music::Regex::num_matching_rows
    requires normal(self.elems@), stage.0 > 0
    ensures match res { Some(v) => v == count(self.elems@, stage.0 as int) && matched_by(self.elems@, stage.0 as int, v as int), None => too_big(num_any(self.elems@), num_glob(self.elems@), stage.0 - bells_of(self.elems@).len(), count(self.elems@, stage.0 as int)) }
@hint start
    proof { let m = lemma_count(self.elems@, stage.0 as int); assert(are_rows(m, self.elems@, stage.0 as int)); }
@loop 0
    invariant matched_by(self.elems@, stage.0 as int, count(self.elems@, stage.0 as int)), xs_0 == enum_seq(ref_seq(self.elems@)), stage.0 > 0, k_0 <= self.elems@.len(),
        num_unfixed == stage.0 - bells_of(self.elems@.take(k_0)).len(), num_wildcards == num_any(self.elems@.take(k_0)), num_globs == num_glob(self.elems@.take(k_0)),
        bells_of(self.elems@.take(k_0)).no_duplicates(), all_in(self.elems@.take(k_0), stage.0 as int), self.elems@.len() <= usize::MAX,
@hint loop 0 start
    proof {
        let el = self.elems@;
        assert(el.take(k_0).drop_last() =~= el.take(k_0 - 1)); assert(el.take(k_0).last() == el[k_0 - 1]);
        lemma_num_pos(el.take(k_0)); lemma_num_pos(el.take(k_0 - 1));
        lemma_step(el, k_0 - 1, stage.0 as int);
        lemma_contains(el.subrange(0, k_0 - 1), el[k_0 - 1]); assert(el.subrange(0, k_0 - 1) =~= el.take(k_0 - 1));
        assert(x_0.0 == k_0 - 1); assert(*x_0.1 == el[k_0 - 1]);
    }
@hint loop 0 before
    proof { assert(self.elems@.take(0) =~= Seq::empty()); assert(self.elems.len() <= usize::MAX); }
@hint loop 0 after
    proof {
        let el = self.elems@;
        assert(el.take(el.len() as int) =~= el);
        lemma_num_pos(el); lemma_globs(el); lemma_fill(el, num_unfixed as int);
        lemma_total(num_wildcards as int, num_globs as int, num_unfixed as int);
    }
@mod music
use crate::utils::small;
/// Some number needed on the way doesn't fit in a usize
pub open spec fn too_big(i: int, j: int, m: int, all: int) -> bool {
    let b = if j > 0 { j - 1 } else { 0 };
    ff(m, small(m, i)) > usize::MAX || fact(i) > usize::MAX || ff(m, i) > usize::MAX || fact(m - i + b) > usize::MAX || fact(b) > usize::MAX || all > usize::MAX
}
pub proof fn lemma_contains(s: Pat, e: RegexElem)
    ensures s.contains(e) == exists|i: int| 0 <= i < s.len() && #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[i], &e)
{
    if s.contains(e) { let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[i], &e)); }
    if exists|i: int| 0 <= i < s.len() && #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[i], &e) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[i], &e); assert(s[i] == e); }
}
/// The next element, after a part whose bells are different and in the stage
pub proof fn lemma_step(e: Pat, i: int, n: int)
    requires 0 <= i < e.len(), bells_of(e.take(i)).no_duplicates(), all_in(e.take(i), n), 0 < n
    ensures e[i] is Bell && (e[i]->Bell_0.index >= n || e.take(i).contains(e[i])) ==> count(e, n) == 0,
        !(e[i] is Bell && (e[i]->Bell_0.index >= n || e.take(i).contains(e[i]))) ==> bells_of(e.take(i + 1)).no_duplicates() && all_in(e.take(i + 1), n) && bells_of(e.take(i + 1)).len() <= n
{
    let (a, b) = (e.take(i), e.take(i + 1));
    assert(b.drop_last() =~= a); assert(b.last() == e[i]);
    if e[i] is Bell {
        let x = e[i]->Bell_0;
        if x.index >= n || a.contains(e[i]) { lemma_bad(e, i, n); } else {
            lemma_bells_member(a, x);
            let (s, t) = (bells_of(a), bells_of(b));
            assert(t =~= s.push(x));
            assert forall|p: int, q: int| 0 <= p < t.len() && 0 <= q < t.len() && p != q implies t[p] != t[q] by { if p == s.len() { assert(s.contains(s[q])); } if q == s.len() { assert(s.contains(s[p])); } }
            assert forall|p: int| 0 <= p < t.len() implies (#[trigger] t[p]).index < n by { if p < s.len() { assert(s[p].index < n); } }
            lemma_pigeon(t, n);
        }
    } else { lemma_pigeon(bells_of(a), n); }
}
/// The parts of the formula
pub proof fn lemma_total(i: int, j: int, m: int)
    requires 0 <= i, 0 <= j, 0 <= m
    ensures m < i || (j == 0 && i < m) ==> ways(i, j, m) == 0,
        i <= m && (j > 0 || i == m) ==> forall|c: int| #![trigger c * fact(i)] c * fact(i) * fact(m - i) == fact(m) ==> c * fact(i) == ff(m, i),
        i <= m && (j > 0 || i == m) ==> ({ let b = if j > 0 { j - 1 } else { 0 }; fact(b) >= 1 && fact(m - i + b) / fact(b) == spread(m - i, j) })
{
    if m < i || (j == 0 && i < m) { assert(j == 0 && i < m ==> ff(m, i) * 0 == 0); } else {
        lemma_ff_fact(m, i); lemma_fact_pos(m - i);
        let f = fact(m - i);
        assert forall|c: int| #![trigger c * fact(i)] c * fact(i) * f == fact(m) implies c * fact(i) == ff(m, i) by {
            let (x, y) = (c * fact(i), ff(m, i));
            assert(x * f == y * f ==> x == y) by(nonlinear_arith) requires f >= 1;
        }
        let b = if j > 0 { j - 1 } else { 0 };
        lemma_fact_pos(b);
        if j > 0 { lemma_spread(m - i, j); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(spread(m - i, j), fact(b)); assert(spread(m - i, j) * fact(b) == fact(b) * spread(m - i, j)) by(nonlinear_arith); }
    }
}
