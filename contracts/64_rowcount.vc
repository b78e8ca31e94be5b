@mod music
/// The arrangements of the bells of `s` and of the pattern which match the pattern
pub open spec fn fits_in(e: Pat, s: Set<Bell>, r: Seq<Bell>) -> bool { r.no_duplicates() && (forall|b: Bell| #[trigger] r.contains(b) <==> s.contains(b) || bells_of(e).contains(b)) && rx(e, r) }
pub open spec fn is_arr(t: Set<Seq<Bell>>, e: Pat, s: Set<Bell>) -> bool { forall|r: Seq<Bell>| #[trigger] t.contains(r) <==> fits_in(e, s, r) }
/// There are k of them
pub open spec fn arrs(e: Pat, s: Set<Bell>, k: int) -> bool { exists|t: Set<Seq<Bell>>| #[trigger] is_arr(t, e, s) && t.len() == k }
/// Those starting with a bell of `h`, the rest being an arrangement for `e`
pub open spec fn leads(e: Pat, s: Set<Bell>, h: Set<Bell>, r: Seq<Bell>) -> bool { r.len() > 0 && h.contains(r[0]) && fits_in(e, s.remove(r[0]), r.skip(1)) }
pub open spec fn is_led(t: Set<Seq<Bell>>, e: Pat, s: Set<Bell>, h: Set<Bell>) -> bool { forall|r: Seq<Bell>| #[trigger] t.contains(r) <==> leads(e, s, h, r) }
pub open spec fn prepend(x: Bell, t: Set<Seq<Bell>>) -> Set<Seq<Bell>> { t.map(|r: Seq<Bell>| seq![x] + r) }
pub proof fn lemma_prepend(x: Bell, t: Set<Seq<Bell>>)
    ensures prepend(x, t).len() == t.len(), forall|r: Seq<Bell>| #[trigger] prepend(x, t).contains(r) <==> r.len() > 0 && r[0] == x && t.contains(r.skip(1))
{
    let f = |r: Seq<Bell>| seq![x] + r;
    assert(t.injective_on(f)) by { assert forall|a: Seq<Bell>, b: Seq<Bell>| t.contains(a) && t.contains(b) && f(a) == f(b) implies a == b by { assert(f(a).skip(1) =~= a); assert(f(b).skip(1) =~= b); } }
    vstd::set_lib::lemma_map_size(t, prepend(x, t), f);
    assert forall|r: Seq<Bell>| #[trigger] prepend(x, t).contains(r) <==> r.len() > 0 && r[0] == x && t.contains(r.skip(1)) by {
        if prepend(x, t).contains(r) { let q = choose|q: Seq<Bell>| t.contains(q) && f(q) == r; assert(r.skip(1) =~= q); }
        if r.len() > 0 && r[0] == x && t.contains(r.skip(1)) { assert(f(r.skip(1)) =~= r); }
    }
}
pub proof fn lemma_led(e: Pat, s: Set<Bell>, h: Set<Bell>, k: int) -> (t: Set<Seq<Bell>>)
    requires h.subset_of(s), forall|x: Bell| #[trigger] s.contains(x) ==> arrs(e, s.remove(x), k)
    ensures is_led(t, e, s, h), t.len() == h.len() * k
    decreases h.len()
{
    if h.len() == 0 {
        assert(h =~= Set::empty());
        assert(0 * k == 0);
        Set::empty()
    } else {
        let x = h.choose();
        let g = h.remove(x);
        assert(g.len() == h.len() - 1);
        let a = lemma_led(e, s, g, k);
        assert(s.contains(x));
        let t = choose|t: Set<Seq<Bell>>| #[trigger] is_arr(t, e, s.remove(x)) && t.len() == k;
        lemma_prepend(x, t);
        let b = prepend(x, t);
        assert forall|r: Seq<Bell>| #[trigger] (a + b).contains(r) <==> leads(e, s, h, r) by { assert(a.contains(r) <==> leads(e, s, g, r)); if r.len() > 0 && r[0] == x { assert(t.contains(r.skip(1)) <==> fits_in(e, s.remove(x), r.skip(1))); } }
        assert(a.disjoint(b)) by { assert forall|r: Seq<Bell>| a.contains(r) implies !b.contains(r) by { assert(g.contains(r[0])); } }
        vstd::set_lib::lemma_set_disjoint_lens(a, b);
        assert((h.len() - 1) * k + k == h.len() * k) by(nonlinear_arith);
        a + b
    }
}
pub proof fn lemma_bells_first(e: Pat)
    requires e.len() > 0
    ensures bells_of(e) == (match e[0] { RegexElem::Bell(b) => seq![b], _ => seq![] }) + bells_of(e.skip(1))
    decreases e.len()
{
    if e.len() == 1 { assert(e.drop_last() =~= Seq::empty()); assert(e.skip(1) =~= Seq::empty()); assert(bells_of(e) =~= (match e[0] { RegexElem::Bell(b) => seq![b], _ => seq![] }) + bells_of(e.skip(1))); } else {
        let d = e.drop_last();
        lemma_bells_first(d);
        assert(e.skip(1).drop_last() =~= d.skip(1)); assert(e.skip(1).last() == e.last());
        assert(bells_of(e) =~= (match e[0] { RegexElem::Bell(b) => seq![b], _ => seq![] }) + bells_of(e.skip(1)));
    }
}
/// A row which matches has all the fixed bells, each once if the row has every bell at most once
pub proof fn lemma_rx_has(e: Pat, r: Seq<Bell>)
    requires rx(e, r), r.no_duplicates()
    ensures forall|b: Bell| #[trigger] bells_of(e).contains(b) ==> r.contains(b), bells_of(e).no_duplicates()
    decreases e.len()
{
    if e.len() > 0 {
        lemma_bells_first(e);
        let t = e.skip(1);
        let k = match e[0] { RegexElem::Glob => choose|k: int| #![trigger r.skip(k)] 0 <= k <= r.len() && rx(t, r.skip(k)), _ => 1 };
        let q = r.skip(k);
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { assert(r[i + k] != r[j + k]); }
        lemma_rx_has(t, q);
        assert forall|b: Bell| q.contains(b) implies r.contains(b) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == b; assert(r[i + k] == b); }
        if let RegexElem::Bell(x) = e[0] {
            assert(r.contains(x)) by { assert(r[0] == x); }
            let (s, u) = (bells_of(e), bells_of(t));
            assert forall|b: Bell| #[trigger] s.contains(b) implies r.contains(b) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == b; if i > 0 { assert(u[i - 1] == b); assert(u.contains(b)); } }
            assert(!u.contains(x)) by { if u.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(r[i + 1] != r[0]); } }
            assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i == 0 { assert(u.contains(s[j])) by { assert(u[j - 1] == s[j]); } } if j == 0 { assert(u.contains(s[i])) by { assert(u[i - 1] == s[i]); } } if i > 0 && j > 0 { assert(u[i - 1] != u[j - 1]); } }
        } else { assert(bells_of(e) =~= bells_of(t)); }
    }
}
pub proof fn lemma_no_dup_skip(r: Seq<Bell>, k: int)
    requires r.no_duplicates(), 0 <= k <= r.len()
    ensures r.skip(k).no_duplicates(), forall|b: Bell| #[trigger] r.skip(k).contains(b) ==> r.contains(b), forall|j: int| 0 <= j < k ==> !r.skip(k).contains(#[trigger] r[j]),
        k == 1 ==> forall|b: Bell| #[trigger] r.contains(b) ==> b == r[0] || r.skip(1).contains(b)
{
    let q = r.skip(k);
    assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { assert(r[i + k] != r[j + k]); }
    assert forall|b: Bell| #[trigger] q.contains(b) implies r.contains(b) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == b; assert(r[i + k] == b); }
    assert forall|j: int| 0 <= j < k implies !q.contains(#[trigger] r[j]) by { if q.contains(r[j]) { let i = choose|i: int| 0 <= i < q.len() && q[i] == r[j]; assert(r[i + k] != r[j]); } }
    if k == 1 { assert forall|b: Bell| #[trigger] r.contains(b) implies b == r[0] || q.contains(b) by { let i = choose|i: int| 0 <= i < r.len() && r[i] == b; if i > 0 { assert(q[i - 1] == b); } } }
}
/// A match whose first bell is not one of the pattern's: the rest is an arrangement without that bell
pub proof fn lemma_rest(e: Pat, t: Pat, s: Set<Bell>, r: Seq<Bell>)
    requires r.len() > 0, bells_of(t) == bells_of(e), forall|b: Bell| !(#[trigger] s.contains(b) && bells_of(e).contains(b))
    ensures r.no_duplicates() && (forall|b: Bell| #[trigger] r.contains(b) <==> s.contains(b) || bells_of(e).contains(b)) && rx(t, r.skip(1)) ==> s.contains(r[0]) && fits_in(t, s.remove(r[0]), r.skip(1)),
        s.contains(r[0]) && fits_in(t, s.remove(r[0]), r.skip(1)) ==> r.no_duplicates() && (forall|b: Bell| #[trigger] r.contains(b) <==> s.contains(b) || bells_of(e).contains(b)) && rx(t, r.skip(1))
{
    let (x, q) = (r[0], r.skip(1));
    assert(r.contains(x));
    if r.no_duplicates() && (forall|b: Bell| #[trigger] r.contains(b) <==> s.contains(b) || bells_of(e).contains(b)) && rx(t, q) {
        lemma_no_dup_skip(r, 1);
        lemma_rx_has(t, q);
        assert(!bells_of(t).contains(x));
        assert forall|b: Bell| #[trigger] q.contains(b) <==> s.remove(x).contains(b) || bells_of(t).contains(b) by { assert(r.contains(b) <==> s.contains(b) || bells_of(e).contains(b)); if q.contains(b) { assert(b != x); } }
    }
    if s.contains(x) && fits_in(t, s.remove(x), q) {
        assert(!bells_of(t).contains(x));
        assert(!q.contains(x));
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { if i > 0 && j > 0 { assert(q[i - 1] != q[j - 1]); } else if i > 0 { assert(q[i - 1] == r[i]); } else { assert(q[j - 1] == r[j]); } }
        assert forall|b: Bell| #[trigger] r.contains(b) <==> s.contains(b) || bells_of(e).contains(b) by {
            assert(q.contains(b) <==> s.remove(x).contains(b) || bells_of(t).contains(b));
            if q.contains(b) { let i = choose|i: int| 0 <= i < q.len() && q[i] == b; assert(r[i + 1] == b); }
            if r.contains(b) { let i = choose|i: int| 0 <= i < r.len() && r[i] == b; if i > 0 { assert(q[i - 1] == b); } }
        }
    }
}
pub proof fn lemma_arr(e: Pat, s: Set<Bell>) -> (res: Set<Seq<Bell>>)
    requires normal(e), bells_of(e).no_duplicates(), forall|b: Bell| !(#[trigger] s.contains(b) && bells_of(e).contains(b))
    ensures is_arr(res, e, s), res.len() == fill(e, s.len() as int)
    decreases e.len(), s.len()
{
    if e.len() == 0 {
        if s.len() == 0 {
            assert(s =~= Set::empty());
            let one = Set::<Seq<Bell>>::empty().insert(seq![]);
            assert forall|r: Seq<Bell>| #[trigger] one.contains(r) <==> fits_in(e, s, r) by { if r.len() == 0 { assert(r =~= seq![]); } }
            one
        } else {
            let x = s.choose();
            assert(s.contains(x));
            assert forall|r: Seq<Bell>| !fits_in(e, s, r) by { if fits_in(e, s, r) { assert(r.contains(x)); } }
            Set::empty()
        }
    } else {
        let t = e.skip(1);
        lemma_bells_first(e);
        assert forall|i: int| 0 <= i < t.len() - 1 && (#[trigger] t[i]) is Glob implies t[i + 1] is Bell by { assert(e[i + 1] is Glob); }
        match e[0] {
            RegexElem::Bell(x) => {
                lemma_first_bell(e, x);
                let a = lemma_arr(t, s);
                lemma_prepend(x, a);
                assert forall|r: Seq<Bell>| #[trigger] prepend(x, a).contains(r) <==> fits_in(e, s, r) by { assert(a.contains(r.skip(1)) <==> fits_in(t, s, r.skip(1))); lemma_bell_rest(e, x, s, r); }
                prepend(x, a)
            },
            RegexElem::Any => {
                assert(bells_of(e) =~= bells_of(t));
                let k = fill(t, s.len() - 1);
                assert forall|x: Bell| #[trigger] s.contains(x) implies arrs(t, s.remove(x), k) by { let a = lemma_arr(t, s.remove(x)); assert(is_arr(a, t, s.remove(x))); }
                let a = lemma_led(t, s, s, k);
                assert forall|r: Seq<Bell>| #[trigger] a.contains(r) <==> fits_in(e, s, r) by { assert(a.contains(r) <==> leads(t, s, s, r)); if r.len() > 0 { lemma_rest(e, t, s, r); } }
                a
            },
            RegexElem::Glob => {
                assert(bells_of(e) =~= bells_of(t));
                let a = lemma_arr(t, s);
                let k = fill(e, s.len() - 1);
                assert forall|x: Bell| #[trigger] s.contains(x) implies arrs(e, s.remove(x), k) by { assert(s.remove(x).len() == s.len() - 1); let a = lemma_arr(e, s.remove(x)); assert(is_arr(a, e, s.remove(x))); }
                let b = lemma_led(e, s, s, k);
                assert forall|r: Seq<Bell>| #[trigger] (a + b).contains(r) <==> fits_in(e, s, r) by {
                    assert(a.contains(r) <==> fits_in(t, s, r)); assert(b.contains(r) <==> leads(e, s, s, r));
                    lemma_glob_first(e, r);
                    if r.len() > 0 { lemma_rest(e, e, s, r); }
                }
                assert(a.disjoint(b)) by {
                    assert forall|r: Seq<Bell>| a.contains(r) implies !b.contains(r) by {
                        if r.len() > 0 && t.len() > 0 { assert(e[0] is Glob); assert(e[1] is Bell); lemma_bells_first(t); let x = t[0]->Bell_0; assert(bells_of(t)[0] == x); assert(bells_of(e).contains(x)); assert(r[0] == x); }
                    }
                }
                vstd::set_lib::lemma_set_disjoint_lens(a, b);
                if s.len() == 0 { assert(0 * k == 0); }
                a + b
            },
        }
    }
}
pub proof fn lemma_first_bell(e: Pat, x: Bell)
    requires e.len() > 0, e[0] == RegexElem::Bell(x), bells_of(e).no_duplicates()
    ensures bells_of(e.skip(1)).no_duplicates(), forall|b: Bell| #[trigger] bells_of(e.skip(1)).contains(b) ==> bells_of(e).contains(b) && b != x, forall|b: Bell| #[trigger] bells_of(e).contains(b) ==> b == x || bells_of(e.skip(1)).contains(b), bells_of(e).contains(x)
{
    lemma_bells_first(e);
    let (u, v) = (bells_of(e), bells_of(e.skip(1)));
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { assert(u[i + 1] != u[j + 1]); }
    assert(u[0] == x);
    assert forall|b: Bell| #[trigger] v.contains(b) implies u.contains(b) && b != x by { let i = choose|i: int| 0 <= i < v.len() && v[i] == b; assert(u[i + 1] == b); }
    assert forall|b: Bell| #[trigger] u.contains(b) implies b == x || v.contains(b) by { let i = choose|i: int| 0 <= i < u.len() && u[i] == b; if i > 0 { assert(v[i - 1] == b); } }
}
pub proof fn lemma_bell_rest(e: Pat, x: Bell, s: Set<Bell>, r: Seq<Bell>)
    requires e.len() > 0, e[0] == RegexElem::Bell(x), bells_of(e).no_duplicates(), forall|b: Bell| !(#[trigger] s.contains(b) && bells_of(e).contains(b))
    ensures fits_in(e, s, r) <==> r.len() > 0 && r[0] == x && fits_in(e.skip(1), s, r.skip(1))
{
    lemma_first_bell(e, x);
    let (u, v) = (bells_of(e), bells_of(e.skip(1)));
    if r.len() > 0 && r[0] == x {
        let q = r.skip(1);
        if fits_in(e, s, r) { lemma_no_dup_skip(r, 1); assert forall|b: Bell| #[trigger] q.contains(b) <==> s.contains(b) || v.contains(b) by { assert(r.contains(b) <==> s.contains(b) || u.contains(b)); } }
        if fits_in(e.skip(1), s, q) {
            assert(!s.contains(x));
            assert(!q.contains(x));
            assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { if i > 0 && j > 0 { assert(q[i - 1] != q[j - 1]); } else if i > 0 { assert(q[i - 1] == r[i]); } else { assert(q[j - 1] == r[j]); } }
            assert forall|b: Bell| #[trigger] r.contains(b) <==> s.contains(b) || u.contains(b) by {
                assert(q.contains(b) <==> s.contains(b) || v.contains(b));
                if q.contains(b) { let i = choose|i: int| 0 <= i < q.len() && q[i] == b; assert(r[i + 1] == b); }
                if r.contains(b) { let i = choose|i: int| 0 <= i < r.len() && r[i] == b; if i > 0 { assert(q[i - 1] == b); } }
                assert(r[0] == x);
            }
        }
    }
}
/// A glob matches nothing, or takes the first bell and goes on
pub proof fn lemma_glob_first(e: Pat, r: Seq<Bell>)
    requires e.len() > 0, e[0] is Glob
    ensures rx(e, r) <==> rx(e.skip(1), r) || (r.len() > 0 && rx(e, r.skip(1)))
{
    let t = e.skip(1);
    assert(r.skip(0) =~= r);
    if rx(e, r) {
        let k = choose|k: int| #![trigger r.skip(k)] 0 <= k <= r.len() && rx(t, r.skip(k));
        if k > 0 { assert(r.skip(1).skip(k - 1) =~= r.skip(k)); assert(rx(e, r.skip(1))); }
    }
    if rx(t, r) { assert(rx(t, r.skip(0))); }
    if r.len() > 0 && rx(e, r.skip(1)) { let k = choose|k: int| #![trigger r.skip(1).skip(k)] 0 <= k <= r.skip(1).len() && rx(t, r.skip(1).skip(k)); assert(r.skip(1).skip(k) =~= r.skip(k + 1)); assert(rx(t, r.skip(k + 1))); }
}
/// The rows of n bells which match a pattern
pub open spec fn row_matches(e: Pat, n: int, r: Seq<Bell>) -> bool { valid(r) && r.len() == n && rx(e, r) }
/// There are exactly `count` of them
pub proof fn lemma_count(e: Pat, n: int) -> (m: Set<Seq<Bell>>)
    requires normal(e), 0 < n <= usize::MAX
    ensures forall|r: Seq<Bell>| #[trigger] m.contains(r) <==> row_matches(e, n, r), m.len() == count(e, n)
{
    let u = bells_of(e);
    if u.no_duplicates() && all_in(e, n) {
        let f = |i: int| Bell { index: i as usize };
        let ints = vstd::set_lib::set_int_range(0, n);
        vstd::set_lib::lemma_int_range(0, n);
        let all = ints.map(f);
        assert forall|b: Bell| #[trigger] all.contains(b) <==> b.index < n by { if b.index < n { assert(ints.contains(b.index as int)); assert(f(b.index as int) == b); } }
        assert(ints.injective_on(f));
        vstd::set_lib::lemma_map_size(ints, all, f);
        u.unique_seq_to_set();
        let us = u.to_set();
        let s = all.difference(us);
        assert(us.subset_of(all)) by { assert forall|b: Bell| us.contains(b) implies all.contains(b) by { let i = choose|i: int| 0 <= i < u.len() && u[i] == b; assert(u[i].index < n); } }
        assert(us + s =~= all);
        assert(us.disjoint(s));
        vstd::set_lib::lemma_set_disjoint_lens(us, s);
        let m = lemma_arr(e, s);
        assert forall|r: Seq<Bell>| #[trigger] m.contains(r) <==> row_matches(e, n, r) by {
            assert(m.contains(r) <==> fits_in(e, s, r));
            if valid(r) && r.len() == n { lemma_valid_all(r); assert forall|b: Bell| #[trigger] r.contains(b) <==> s.contains(b) || u.contains(b) by { assert(us.contains(b) <==> u.contains(b)); assert(all.contains(b) <==> b.index < n); } }
            if fits_in(e, s, r) { assert forall|b: Bell| #[trigger] r.contains(b) <==> all.contains(b) by { assert(r.contains(b) <==> s.contains(b) || u.contains(b)); assert(us.contains(b) <==> u.contains(b)); } r.unique_seq_to_set(); assert(r.to_set() =~= all); lemma_all_valid(r); }
        }
        m
    } else {
        assert forall|r: Seq<Bell>| !row_matches(e, n, r) by {
            if valid(r) && r.len() == n && rx(e, r) {
                lemma_valid_all(r); lemma_rx_has(e, r);
                assert(all_in(e, n)) by { assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).index < n by { assert(u.contains(u[i])); assert(r.contains(u[i])); } }
            }
        }
        Set::empty()
    }
}
pub proof fn lemma_valid_all(r: Seq<Bell>)
    requires valid(r)
    ensures r.no_duplicates(), forall|b: Bell| #[trigger] r.contains(b) <==> b.index < r.len()
{
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { if i < j { assert(r[i] != r[j]); } else { assert(r[j] != r[i]); } }
    lemma_surj(r);
    assert forall|b: Bell| #[trigger] r.contains(b) <==> b.index < r.len() by {
        if b.index < r.len() { assert(has_idx(r, b.index as int)); let i = choose|i: int| 0 <= i < r.len() && r[i].index == b.index; assert(r[i] == b); }
    }
}
pub proof fn lemma_all_valid(r: Seq<Bell>)
    requires r.no_duplicates(), r.len() > 0, forall|b: Bell| #[trigger] r.contains(b) ==> b.index < r.len()
    ensures valid(r)
{ assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).index < r.len() by { assert(r.contains(r[i])); } }
pub open spec fn are_rows(m: Set<Seq<Bell>>, e: Pat, n: int) -> bool { forall|r: Seq<Bell>| #[trigger] m.contains(r) <==> row_matches(e, n, r) }
/// Exactly k rows of n bells match the pattern
pub open spec fn matched_by(e: Pat, n: int, k: int) -> bool { exists|m: Set<Seq<Bell>>| #[trigger] are_rows(m, e, n) && m.len() == k }
