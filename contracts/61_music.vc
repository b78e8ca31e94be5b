@mod music
use crate::sp::*;
use crate::vf::*;
use crate::bell::bell_of;
broadcast use {crate::sp::row_fits, crate::sp::rowbuf_fits};
pub type Pat = Seq<RegexElem>;
/// A row matches a pattern when it splits into consecutive parts matched by its elements
pub open spec fn rx(e: Pat, r: Seq<Bell>) -> bool decreases e.len() {
    if e.len() == 0 { r.len() == 0 } else {
        match e[0] {
            RegexElem::Bell(b) => r.len() > 0 && r[0] == b && rx(e.skip(1), r.skip(1)),
            RegexElem::Any => r.len() > 0 && rx(e.skip(1), r.skip(1)),
            RegexElem::Glob => exists|k: int| #![trigger r.skip(k)] 0 <= k <= r.len() && rx(e.skip(1), r.skip(k)),
        }
    }
}
/// Between fixed bells, all wildcards come before at most one glob
pub open spec fn normal(e: Pat) -> bool { forall|i: int| 0 <= i < e.len() - 1 && (#[trigger] e[i]) is Glob ==> e[i + 1] is Bell }
/// The normal form: `done` up to the last fixed bell, then the wildcards since
pub open spec fn anys(e: Pat) -> nat decreases e.len() { if e.len() == 0 { 0 } else { match e.last() { RegexElem::Bell(_) => 0, RegexElem::Any => anys(e.drop_last()) + 1, RegexElem::Glob => anys(e.drop_last()) } } }
pub open spec fn globs(e: Pat) -> bool decreases e.len() { if e.len() == 0 { false } else { match e.last() { RegexElem::Bell(_) => false, RegexElem::Any => globs(e.drop_last()), RegexElem::Glob => true } } }
pub open spec fn wild(n: nat, g: bool) -> Pat { rep_seq(RegexElem::Any, n) + (if g { seq![RegexElem::Glob] } else { seq![] }) }
pub open spec fn done(e: Pat) -> Pat decreases e.len() { if e.len() == 0 { seq![] } else { match e.last() { RegexElem::Bell(_) => (done(e.drop_last()) + wild(anys(e.drop_last()), globs(e.drop_last()))).push(e.last()), _ => done(e.drop_last()) } } }
pub open spec fn norm(e: Pat) -> Pat { done(e) + wild(anys(e), globs(e)) }
/// The fixed bells of a pattern, in order, and where a row has them
pub open spec fn bells_of(e: Pat) -> Seq<Bell> decreases e.len() { if e.len() == 0 { seq![] } else { match e.last() { RegexElem::Bell(b) => bells_of(e.drop_last()).push(b), _ => bells_of(e.drop_last()) } } }
pub open spec fn places_in(e: Pat, r: Seq<Bell>) -> Seq<usize> { bells_of(e).map_values(|b: Bell| idx_of(r, b.index as int) as usize) }
pub open spec fn elem_of(c: char) -> Option<RegexElem> { if c == 'x' || c == '.' { Some(RegexElem::Any) } else if c == '*' { Some(RegexElem::Glob) } else { match bell_of(c) { Some(b) => Some(RegexElem::Bell(b)), None => None } } }
pub open spec fn pattern_of(s: Seq<char>) -> Pat { opt_map(s, |c: char| elem_of(c)) }

pub proof fn lemma_rx_app(a: Pat, b: Pat, r: Seq<Bell>)
    ensures rx(a + b, r) <==> exists|k: int| 0 <= k <= r.len() && rx(a, r.take(k)) && #[trigger] rx(b, r.skip(k))
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        if rx(b, r) { assert(r.skip(0) =~= r); assert(rx(a, r.take(0))); assert(rx(b, r.skip(0))); }
        if exists|k: int| 0 <= k <= r.len() && rx(a, r.take(k)) && #[trigger] rx(b, r.skip(k)) { let k = choose|k: int| 0 <= k <= r.len() && rx(a, r.take(k)) && #[trigger] rx(b, r.skip(k)); assert(r.take(k).len() == k); assert(r.skip(0) =~= r); }
    } else {
        let ab = a + b;
        assert(ab[0] == a[0]); assert(ab.skip(1) =~= a.skip(1) + b);
        if a[0] is Glob {
            if rx(ab, r) {
                let j = choose|j: int| #![trigger r.skip(j)] 0 <= j <= r.len() && rx(ab.skip(1), r.skip(j));
                lemma_rx_app(a.skip(1), b, r.skip(j));
                let k = choose|k: int| 0 <= k <= r.skip(j).len() && rx(a.skip(1), r.skip(j).take(k)) && #[trigger] rx(b, r.skip(j).skip(k));
                assert(r.skip(j).skip(k) =~= r.skip(j + k)); assert(r.skip(j).take(k) =~= r.take(j + k).skip(j));
                assert(rx(a.skip(1), r.take(j + k).skip(j))); assert(rx(a, r.take(j + k))); assert(rx(b, r.skip(j + k)));
            }
            if exists|k: int| 0 <= k <= r.len() && rx(a, r.take(k)) && #[trigger] rx(b, r.skip(k)) {
                let k = choose|k: int| 0 <= k <= r.len() && rx(a, r.take(k)) && #[trigger] rx(b, r.skip(k));
                let j = choose|j: int| #![trigger r.take(k).skip(j)] 0 <= j <= r.take(k).len() && rx(a.skip(1), r.take(k).skip(j));
                assert(r.skip(j).take(k - j) =~= r.take(k).skip(j)); assert(r.skip(j).skip(k - j) =~= r.skip(k));
                assert(rx(b, r.skip(j).skip(k - j)));
                lemma_rx_app(a.skip(1), b, r.skip(j));
                assert(rx(ab.skip(1), r.skip(j)));
            }
        } else if r.len() > 0 {
            lemma_rx_app(a.skip(1), b, r.skip(1));
            let q = r.skip(1);
            if rx(ab, r) {
                let k = choose|k: int| 0 <= k <= q.len() && rx(a.skip(1), q.take(k)) && #[trigger] rx(b, q.skip(k));
                assert(q.skip(k) =~= r.skip(k + 1)); assert(q.take(k) =~= r.take(k + 1).skip(1));
                assert(rx(a, r.take(k + 1)));
            }
            if exists|k: int| 0 <= k <= r.len() && rx(a, r.take(k)) && #[trigger] rx(b, r.skip(k)) {
                let k = choose|k: int| 0 <= k <= r.len() && rx(a, r.take(k)) && #[trigger] rx(b, r.skip(k));
                assert(r.take(k).len() == k);
                assert(q.skip(k - 1) =~= r.skip(k)); assert(q.take(k - 1) =~= r.take(k).skip(1));
                assert(rx(b, q.skip(k - 1)));
            }
        } else {
            if exists|k: int| 0 <= k <= r.len() && rx(a, r.take(k)) && #[trigger] rx(b, r.skip(k)) { let k = choose|k: int| 0 <= k <= r.len() && rx(a, r.take(k)) && #[trigger] rx(b, r.skip(k)); assert(r.take(k).len() == 0); }
        }
    }
}
/// Two patterns which match the same rows
pub open spec fn same_rx(a: Pat, b: Pat) -> bool { forall|r: Seq<Bell>| #[trigger] rx(a, r) == rx(b, r) }
pub proof fn lemma_same_app(a: Pat, b: Pat, c: Pat, d: Pat)
    requires same_rx(a, b), same_rx(c, d)
    ensures same_rx(a + c, b + d)
{
    assert forall|r: Seq<Bell>| #[trigger] rx(a + c, r) == rx(b + d, r) by {
        lemma_rx_app(a, c, r); lemma_rx_app(b, d, r);
        if rx(a + c, r) { let k = choose|k: int| 0 <= k <= r.len() && rx(a, r.take(k)) && #[trigger] rx(c, r.skip(k)); assert(rx(b, r.take(k)) && rx(d, r.skip(k))); }
        if rx(b + d, r) { let k = choose|k: int| 0 <= k <= r.len() && rx(b, r.take(k)) && #[trigger] rx(d, r.skip(k)); assert(rx(a, r.take(k)) && rx(c, r.skip(k))); }
    }
}
pub proof fn lemma_rx_wild(n: nat, g: bool, r: Seq<Bell>)
    ensures rx(wild(n, g), r) <==> (r.len() == n || (g && r.len() > n))
    decreases n
{
    let w = wild(n, g);
    if n == 0 {
        if g { assert(w =~= seq![RegexElem::Glob]); assert(w[0] is Glob); assert(w.skip(1) =~= Seq::empty()); assert(r.skip(r.len() as int).len() == 0); assert(rx(w.skip(1), r.skip(r.len() as int))); assert(rx(w, r)); } else { assert(w =~= Seq::empty()); assert(rx(w, r) <==> r.len() == 0); }
    } else {
        assert(w[0] == RegexElem::Any);
        assert(w.skip(1) =~= wild((n - 1) as nat, g));
        assert(w.len() > 0);
        assert(rx(w, r) <==> r.len() > 0 && rx(w.skip(1), r.skip(1)));
        if r.len() > 0 { lemma_rx_wild((n - 1) as nat, g, r.skip(1)); }
    }
}
/// One more wildcard at the end of a run of them
pub proof fn lemma_wild_step(n: nat, g: bool)
    ensures same_rx(wild(n, g).push(RegexElem::Any), wild(n + 1, g)), same_rx(wild(n, g).push(RegexElem::Glob), wild(n, true))
{
    assert forall|r: Seq<Bell>| #[trigger] rx(wild(n, g).push(RegexElem::Any), r) == rx(wild(n + 1, g), r) by {
        let a = seq![RegexElem::Any];
        assert(wild(n, g).push(RegexElem::Any) =~= wild(n, g) + a);
        lemma_rx_app(wild(n, g), a, r);
        lemma_rx_wild(n + 1, g, r);
        assert(a =~= wild(1, false));
        if rx(wild(n, g) + a, r) { let k = choose|k: int| 0 <= k <= r.len() && rx(wild(n, g), r.take(k)) && #[trigger] rx(a, r.skip(k)); lemma_rx_wild(n, g, r.take(k)); lemma_rx_wild(1, false, r.skip(k)); }
        if rx(wild(n + 1, g), r) { let k = r.len() - 1; lemma_rx_wild(n, g, r.take(k)); lemma_rx_wild(1, false, r.skip(k)); }
    }
    assert forall|r: Seq<Bell>| #[trigger] rx(wild(n, g).push(RegexElem::Glob), r) == rx(wild(n, true), r) by {
        let a = seq![RegexElem::Glob];
        assert(wild(n, g).push(RegexElem::Glob) =~= wild(n, g) + a);
        lemma_rx_app(wild(n, g), a, r);
        lemma_rx_wild(n, true, r);
        assert(a =~= wild(0, true));
        if rx(wild(n, g) + a, r) { let k = choose|k: int| 0 <= k <= r.len() && rx(wild(n, g), r.take(k)) && #[trigger] rx(a, r.skip(k)); lemma_rx_wild(n, g, r.take(k)); lemma_rx_wild(0, true, r.skip(k)); }
        if rx(wild(n, true), r) { let k = n as int; lemma_rx_wild(n, g, r.take(k)); lemma_rx_wild(0, true, r.skip(k)); }
    }
}
/// Normalising never changes which rows are matched
pub proof fn lemma_norm_rx(e: Pat)
    ensures same_rx(e, norm(e))
    decreases e.len()
{
    if e.len() == 0 { assert(norm(e) =~= e); } else {
        let d = e.drop_last();
        lemma_norm_rx(d);
        let l = seq![e.last()];
        assert(e =~= d + l);
        lemma_same_app(d, norm(d), l, l);
        if e.last() is Bell {
            assert(norm(e) =~= norm(d) + l);
        } else {
            assert(norm(d) + l =~= done(d) + wild(anys(d), globs(d)).push(e.last()));
            lemma_wild_step(anys(d), globs(d));
            lemma_same_app(done(d), done(d), wild(anys(d), globs(d)).push(e.last()), wild(anys(e), globs(e)));
        }
    }
}
pub proof fn lemma_norm(e: Pat)
    ensures normal(norm(e)), bells_of(norm(e)) == bells_of(e), done(e).len() > 0 ==> done(e).last() is Bell, normal(done(e)), bells_of(done(e)) == bells_of(e)
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_last();
        lemma_norm(d);
        if e.last() is Bell {
            assert(done(e) =~= norm(d).push(e.last())); assert(done(e).drop_last() =~= norm(d));
            assert forall|i: int| 0 <= i < done(e).len() - 1 && (#[trigger] done(e)[i]) is Glob implies done(e)[i + 1] is Bell by { if i < norm(d).len() - 1 { assert(norm(d)[i] is Glob); } }
        }
    }
    lemma_wild_bells(done(e), anys(e), globs(e));
}
pub proof fn lemma_any_bells(p: Pat, n: nat)
    requires normal(p), p.len() > 0 ==> p.last() is Bell
    ensures bells_of(p + wild(n, false)) == bells_of(p), normal(p + wild(n, false)), (p + wild(n, false)).len() > 0 ==> !((p + wild(n, false)).last() is Glob)
    decreases n
{
    let w = p + wild(n, false);
    if n > 0 {
        assert(w.drop_last() =~= p + wild((n - 1) as nat, false)); assert(w.last() is Any);
        lemma_any_bells(p, (n - 1) as nat);
        assert forall|i: int| 0 <= i < w.len() - 1 && (#[trigger] w[i]) is Glob implies w[i + 1] is Bell by { assert(w[i] == w.drop_last()[i]); }
    } else { assert(w =~= p); }
}
pub proof fn lemma_wild_bells(p: Pat, n: nat, g: bool)
    requires normal(p), p.len() > 0 ==> p.last() is Bell
    ensures bells_of(p + wild(n, g)) == bells_of(p), normal(p + wild(n, g))
{
    lemma_any_bells(p, n);
    if g {
        let v = p + wild(n, false);
        let w = p + wild(n, g);
        assert(w =~= v.push(RegexElem::Glob)); assert(w.drop_last() =~= v);
        assert forall|i: int| 0 <= i < w.len() - 1 && (#[trigger] w[i]) is Glob implies w[i + 1] is Bell by { assert(w[i] == v[i]); }
    }
}
/// A pattern in normal form is left alone
pub proof fn lemma_norm_id(e: Pat)
    requires normal(e)
    ensures norm(e) == e
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_last();
        assert forall|i: int| 0 <= i < d.len() - 1 && (#[trigger] d[i]) is Glob implies d[i + 1] is Bell by { assert(e[i] is Glob); }
        lemma_norm_id(d);
        if e.last() is Bell { assert(norm(e) =~= norm(d).push(e.last())); }
        else {
            assert(!globs(d)) by { if globs(d) { assert(d.last() == norm(d).last()); assert(e[d.len() - 1] is Glob); } }
            assert(norm(e) =~= norm(d).push(e.last()));
        }
        assert(e =~= d.push(e.last()));
    } else { assert(norm(e) =~= e); }
}
/// A piece which ends with its only fixed bell, after a part which ends with one
pub proof fn lemma_piece(p: Pat, c: Pat)
    requires c.len() > 0, c.last() is Bell, forall|i: int| 0 <= i < c.len() - 1 ==> !((#[trigger] c[i]) is Bell), p.len() > 0 ==> p.last() is Bell
    ensures done(p + c) == (done(p) + wild(anys(c.drop_last()), globs(c.drop_last()))).push(c.last()), (p + c).last() is Bell
{
    let w = c.drop_last();
    assert((p + c).drop_last() =~= p + w);
    lemma_wild_tail(p, w);
}
pub proof fn lemma_wild_tail(p: Pat, w: Pat)
    requires forall|i: int| 0 <= i < w.len() ==> !((#[trigger] w[i]) is Bell), p.len() > 0 ==> p.last() is Bell
    ensures done(p + w) == done(p), anys(p + w) == anys(w), globs(p + w) == globs(w)
    decreases w.len()
{
    if w.len() == 0 { assert(p + w =~= p); } else {
        assert((p + w).drop_last() =~= p + w.drop_last());
        assert(!(w[w.len() - 1] is Bell));
        lemma_wild_tail(p, w.drop_last());
    }
}
pub proof fn lemma_counts(w: Pat)
    requires forall|i: int| 0 <= i < w.len() ==> !((#[trigger] w[i]) is Bell)
    ensures anys(w) == keep(ref_seq(w), |e: &RegexElem| *e is Any).len(), globs(w) == w.contains(RegexElem::Glob)
    decreases w.len()
{
    if w.len() > 0 {
        let d = w.drop_last();
        lemma_counts(d);
        assert(ref_seq(w).drop_last() =~= ref_seq(d));
        assert(!(w[w.len() - 1] is Bell));
        if d.contains(RegexElem::Glob) { let i = choose|i: int| 0 <= i < d.len() && d[i] == RegexElem::Glob; assert(w[i] == RegexElem::Glob); }
        if w.contains(RegexElem::Glob) { let i = choose|i: int| 0 <= i < w.len() && w[i] == RegexElem::Glob; if i < d.len() { assert(d[i] == RegexElem::Glob); } }
        if w.last() is Glob { assert(w[w.len() - 1] == RegexElem::Glob); }
    } else { assert(ref_seq(w) =~= Seq::empty()); }
}
@fn music::RegexElem::bell
    ensures res == (match self { RegexElem::Bell(b) => Some(b), _ => None })
@fn music::Regex::parse
    ensures res.elems@ == norm(pattern_of(s@)), normal(res.elems@)
@closure 0 |c: char| -> (r: Option<RegexElem>) ensures r == elem_of(c)
@closure 1 |b: Bell| -> (r: RegexElem) ensures r == RegexElem::Bell(b)
@fn music::Regex::from_elems
    ensures res.elems@ == norm(iter@), normal(res.elems@)
@fn music::Regex::from_elems_unchecked
    ensures res.elems@ == iter@
@fn music::Regex::from_vec
    ensures res.elems@ == norm(elems@), normal(res.elems@)
@hint start
    proof { lemma_norm(elems@); }
@fn music::Regex::from_vec_unchecked
    ensures res.elems == elems
@fn music::Regex::normalise
    ensures final(self).elems@ == norm(old(self).elems@)
@hint start
    let ghost elems0 = self.elems@;
@closure 0 |e: &RegexElem| -> (r: bool) ensures r == (*e is Bell)
@closure 1 |e: &&RegexElem| -> (r: bool) ensures r == (**e is Any)
@hint loop 0 after
    proof { assert(xs_0.take(k_0) =~= xs_0); assert(flat(xs_0).last() == RegexElem::Bell(Bell { index: 0 })); assert(normalised_elems@.drop_last() =~= norm(elems0)); }
@hint after let num_wildcards
    proof { let w = x_0@.drop_last(); assert(wildcards_pattern@ =~= w); assert(ref_seq(wildcards_pattern@) =~= ref_seq(w)); assert(num_wildcards == anys(w));
        if w.contains(RegexElem::Glob) { let i = choose|i: int| 0 <= i < w.len() && w[i] == RegexElem::Glob; assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&wildcards_pattern@[i], &RegexElem::Glob)); }
        if exists|i: int| 0 <= i < wildcards_pattern@.len() && #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&wildcards_pattern@[i], &RegexElem::Glob) { let i = choose|i: int| 0 <= i < wildcards_pattern@.len() && #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&wildcards_pattern@[i], &RegexElem::Glob); assert(w[i] == RegexElem::Glob); } }
@hint loop 0 end
    proof { let w = x_0@.drop_last(); assert(normalised_elems@ =~= (done(flat(xs_0.take(k_0 - 1))) + wild(anys(w), globs(w))).push(x_0@.last())); }
@loop 0
    invariant forall|k: int| 0 <= k < xs_0.len() ==> is_piece((#[trigger] xs_0[k])@),
        normalised_elems@ == done(flat(xs_0.take(k_0))), flat(xs_0.take(k_0)).len() > 0 ==> flat(xs_0.take(k_0)).last() is Bell,
@hint loop 0 before
    proof { lemma_pieces(xs_0); assert(flat(xs_0).drop_last() =~= elems0); assert(xs_0.take(xs_0.len() as int) =~= xs_0); assert(xs_0.take(0) =~= Seq::empty());
        assert forall|k: int| 0 <= k < xs_0.len() implies is_piece((#[trigger] xs_0[k])@) by { assert(xs_0[k]@.len() > 0); if k == xs_0.len() - 1 { } else { } } }
@hint loop 0 start
    proof { assert(is_piece(x_0@)); let w = x_0@.drop_last(); assert(x_0@.subrange(0, x_0@.len() - 1) =~= w); assert forall|i: int| 0 <= i < w.len() implies !((#[trigger] w[i]) is Bell) by { assert(x_0@[i] == w[i]); } lemma_counts(w); lemma_piece(flat(xs_0.take(k_0 - 1)), x_0@);
        assert(xs_0.take(k_0).drop_last() =~= xs_0.take(k_0 - 1)); assert(xs_0.take(k_0).last() == x_0); }
@fn music::Regex::elems
    ensures res@ == self.elems@
@fn music::Regex::matches
    requires normal(self.elems@), valid(r@)
    ensures res == rx(self.elems@, r@)
@fn music::Regex::match_pattern
    requires normal(self.elems@), valid(r@)
    ensures match res { Some(v) => rx(self.elems@, r@) && v@ == places_in(self.elems@, r@), None => !rx(self.elems@, r@) }
@loop 0
    invariant matches@ == xs_0.take(k_0),
@fn music::Regex::run_match
    requires normal(self.elems@), valid(r@), old(match_fn)@.len() == 0
    ensures res == rx(self.elems@, r@), res ==> final(match_fn)@ == places_in(self.elems@, r@)
@hint start
    hide(rx); hide(places_in); hide(normal);
@hint loop 0 before
    proof { lemma_begin(self.elems@, r@); assert(regex_elems@ =~= self.elems@); assert(regex_elems@.skip(0) =~= regex_elems@); assert(bells@.skip(0) =~= bells@); assert(match_fn@ =~= Seq::empty()); }
@loop 0
    invariant normal(self.elems@), valid(r@), fits(r@), regex_elems@.len() <= self.elems@.len(), regex_elems@ == self.elems@.skip(self.elems@.len() - regex_elems@.len()),
        bells@.len() <= r@.len(), bells@ == enum_seq(r@).skip(r@.len() - bells@.len()),
        rest(self.elems@, r@, self.elems@.len() - regex_elems@.len(), r@.len() - bells@.len()) == rx(self.elems@, r@), match_fn@ == found(self.elems@, r@, self.elems@.len() - regex_elems@.len()),
        found(self.elems@, r@, self.elems@.len() as int) == places_in(self.elems@, r@)
    decreases regex_elems@.len()
@hint loop 0 start
    let ghost ei = self.elems@.len() - regex_elems@.len(); let ghost p0 = r@.len() - bells@.len();
    proof { lemma_state(self.elems@, r@, ei, p0); lemma_bells_left(r@, p0); lemma_elems_left(self.elems@, ei); }
@loop 1
    invariant_except_break
        rest(self.elems@, r@, ei, r@.len() - bells@.len()) == rx(self.elems@, r@), match_fn@ == found(self.elems@, r@, ei)
    invariant valid(r@), fits(r@), 0 <= ei, ei + 2 <= self.elems@.len(), self.elems@[ei] is Glob, self.elems@[ei + 1] == RegexElem::Bell(exp_bell),
        bells@.len() <= r@.len(), bells@ == enum_seq(r@).skip(r@.len() - bells@.len())
    ensures bells@.len() <= r@.len(), bells@ == enum_seq(r@).skip(r@.len() - bells@.len()), rest(self.elems@, r@, ei + 2, r@.len() - bells@.len()) == rx(self.elems@, r@), match_fn@ == found(self.elems@, r@, ei + 2)
    decreases bells@.len()
@hint loop 1 start
    let ghost p1 = r@.len() - bells@.len();
    proof { lemma_bells_left(r@, p1); lemma_found2(self.elems@, r@, ei); lemma_glob_bell(self.elems@, r@, ei, p1); }
@mod music
pub open spec fn is_piece(c: Pat) -> bool { c.len() > 0 && c.last() is Bell && forall|i: int| 0 <= i < c.len() - 1 ==> !((#[trigger] c[i]) is Bell) }
/// Every piece of a list which ends with a fixed bell ends with one
pub proof fn lemma_pieces(p: Seq<&[RegexElem]>)
    requires flat(p).len() > 0 ==> flat(p).last() is Bell, forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k])@.len() > 0
    ensures p.len() > 0 ==> p.last()@.last() is Bell
{ if p.len() > 0 { assert(p[p.len() - 1]@.len() > 0); assert(flat(p).last() == p.last()@.last()); } }
/// What is left of a pattern matches what is left of a row
#[verifier::opaque]
pub open spec fn rest(e: Pat, r: Seq<Bell>, i: int, p: int) -> bool { rx(e.skip(i), r.skip(p)) }
/// Where the fixed bells so far ring
#[verifier::opaque]
pub open spec fn found(e: Pat, r: Seq<Bell>, i: int) -> Seq<usize> { places_in(e.take(i), r) }
pub proof fn lemma_begin(e: Pat, r: Seq<Bell>)
    ensures rest(e, r, 0, 0) == rx(e, r), found(e, r, 0) == Seq::<usize>::empty(), found(e, r, e.len() as int) == places_in(e, r)
{ reveal(rest); reveal(found); assert(e.skip(0) =~= e); assert(r.skip(0) =~= r); assert(e.take(e.len() as int) =~= e); assert(found(e, r, 0) =~= Seq::empty()); }
pub proof fn lemma_bells_left(r: Seq<Bell>, p: int)
    requires valid(r), 0 <= p <= r.len()
    ensures enum_seq(r).skip(p).len() == r.len() - p, p < r.len() ==> enum_seq(r).skip(p)[0] == (p as usize, r[p]) && enum_seq(r).skip(p).skip(1) == enum_seq(r).skip(p + 1) && idx_of(r, r[p].index as int) == p
{ if p < r.len() { assert(enum_seq(r).skip(p).skip(1) =~= enum_seq(r).skip(p + 1)); lemma_idx_unique(r, p); } }
pub proof fn lemma_elems_left(e: Pat, i: int)
    requires 0 <= i <= e.len(), normal(e)
    ensures i < e.len() ==> e.skip(i)[0] == e[i] && e.skip(i).skip(1) == e.skip(i + 1), i + 1 < e.len() ==> e.skip(i + 1)[0] == e[i + 1] && e.skip(i + 1).skip(1) == e.skip(i + 2) && (e[i] is Glob ==> e[i + 1] is Bell)
{ if i < e.len() { assert(e.skip(i).skip(1) =~= e.skip(i + 1)); } if i + 1 < e.len() { assert(e.skip(i + 1).skip(1) =~= e.skip(i + 2)); } }
/// What the next element of a pattern means for the next bell of a row
pub proof fn lemma_state(e: Pat, r: Seq<Bell>, i: int, p: int)
    requires 0 <= i <= e.len(), 0 <= p <= r.len()
    ensures i == e.len() ==> rest(e, r, i, p) == (p == r.len()),
        i < e.len() && e[i] is Any ==> rest(e, r, i, p) == (p < r.len() && rest(e, r, i + 1, p + 1)),
        i < e.len() && e[i] is Bell ==> rest(e, r, i, p) == (p < r.len() && r[p] == e[i]->Bell_0 && rest(e, r, i + 1, p + 1)),
        i + 1 == e.len() && e[i] is Glob ==> rest(e, r, i, p),
        i < e.len() ==> found(e, r, i + 1) == (match e[i] { RegexElem::Bell(b) => found(e, r, i).push(idx_of(r, b.index as int) as usize), _ => found(e, r, i) }),
{
    reveal(rest); reveal(found);
    if i < e.len() { assert(e.skip(i).skip(1) =~= e.skip(i + 1)); assert(e.skip(i)[0] == e[i]); lemma_places(e, r, i); }
    if p < r.len() { assert(r.skip(p).skip(1) =~= r.skip(p + 1)); }
    if i + 1 == e.len() && e[i] is Glob { let q = r.skip(p); assert(q.skip(q.len() as int).len() == 0); assert(e.skip(i).skip(1).len() == 0); assert(rx(e.skip(i).skip(1), q.skip(q.len() as int))); }
}
pub proof fn lemma_found2(e: Pat, r: Seq<Bell>, i: int)
    requires 0 <= i, i + 2 <= e.len(), e[i] is Glob, e[i + 1] is Bell
    ensures found(e, r, i + 2) == found(e, r, i).push(idx_of(r, e[i + 1]->Bell_0.index as int) as usize)
{ reveal(found); lemma_places(e, r, i); lemma_places(e, r, i + 1); }
pub proof fn lemma_places(e: Pat, r: Seq<Bell>, i: int)
    requires 0 <= i < e.len()
    ensures places_in(e.take(i + 1), r) == (match e[i] { RegexElem::Bell(b) => places_in(e.take(i), r).push(idx_of(r, b.index as int) as usize), _ => places_in(e.take(i), r) })
{
    assert(e.take(i + 1).drop_last() =~= e.take(i)); assert(e.take(i + 1).last() == e[i]);
    if let RegexElem::Bell(b) = e[i] { assert(places_in(e.take(i + 1), r) =~= places_in(e.take(i), r).push(idx_of(r, b.index as int) as usize)); }
}
/// A glob before a fixed bell takes everything up to that bell
pub proof fn lemma_glob_bell(e: Pat, r: Seq<Bell>, i: int, p: int)
    requires 0 <= i, i + 2 <= e.len(), 0 <= p <= r.len(), e[i] is Glob, e[i + 1] is Bell, valid(r)
    ensures rest(e, r, i, p) == (p < r.len() && (if r[p] == e[i + 1]->Bell_0 { rest(e, r, i + 2, p + 1) } else { rest(e, r, i, p + 1) }))
{
    reveal(rest);
    let b = e[i + 1]->Bell_0;
    let (g, t, q) = (e.skip(i), e.skip(i + 1), r.skip(p));
    assert(g.skip(1) =~= t); assert(t.skip(1) =~= e.skip(i + 2)); assert(t[0] == e[i + 1]); assert(g[0] == e[i]);
    if rx(g, q) {
        let k = choose|k: int| #![trigger q.skip(k)] 0 <= k <= q.len() && rx(t, q.skip(k));
        assert(rx(t, q.skip(k)));
        assert(q.skip(k) =~= r.skip(p + k));
        assert(q.skip(k)[0] == b); assert(r[p + k] == b);
        if r[p] == b { if k > 0 { assert(r[p] != r[p + k]); } assert(q.skip(0).skip(1) =~= r.skip(p + 1)); }
        else { let q1 = r.skip(p + 1); assert(k > 0); assert(q1.skip(k - 1) =~= q.skip(k)); assert(rx(t, q1.skip(k - 1))); }
    }
    if p < r.len() {
        let q1 = r.skip(p + 1);
        if r[p] == b && rx(e.skip(i + 2), q1) { assert(q.skip(0) =~= q); assert(q.skip(1) =~= q1); assert(q[0] == b); assert(rx(t, q.skip(0))); }
        if r[p] != b && rx(g, q1) {
            let k = choose|k: int| #![trigger q1.skip(k)] 0 <= k <= q1.len() && rx(t, q1.skip(k));
            assert(q1.skip(k) =~= q.skip(k + 1)); assert(rx(t, q.skip(k + 1)));
        }
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for RegexElem { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self == o } }
/// Normalising twice is the same as once, and the normal form matches the same rows in the same places
pub proof fn lemma_normalised(e: Pat, r: Seq<Bell>)
    ensures norm(norm(e)) == norm(e), normal(norm(e)), rx(norm(e), r) == rx(e, r), places_in(norm(e), r) == places_in(e, r)
{ lemma_norm(e); lemma_norm_id(norm(e)); lemma_norm_rx(e); }
