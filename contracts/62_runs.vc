@mod music
pub open spec fn up(i: int, len: int) -> Seq<Bell> { Seq::new(len as nat, |k: int| Bell { index: (i + k) as usize }) }
pub open spec fn down(i: int, len: int) -> Seq<Bell> { Seq::new(len as nat, |k: int| Bell { index: (i + len - 1 - k) as usize }) }
/// A pattern of fixed bells only
pub open spec fn only(b: Seq<Bell>) -> Pat { b.map_values(|x: Bell| RegexElem::Bell(x)) }
pub open spec fn glob() -> Pat { seq![RegexElem::Glob] }
/// Whether a row has consecutive bells, ascending or descending, from a place on
pub open spec fn ascending(r: Seq<Bell>, at: int, len: int) -> bool { forall|k: int| 0 <= k < len - 1 ==> (#[trigger] r[at + k]).index + 1 == r[at + (k + 1)].index }
pub open spec fn descending(r: Seq<Bell>, at: int, len: int) -> bool { forall|k: int| 0 <= k < len - 1 ==> (#[trigger] r[at + k]).index == r[at + (k + 1)].index + 1 }
pub open spec fn run_at(r: Seq<Bell>, at: int, len: int) -> bool { 0 <= at && at + len <= r.len() && (ascending(r, at, len) || descending(r, at, len)) }
pub open spec fn run_anywhere(r: Seq<Bell>, len: int) -> bool { exists|at: int| #[trigger] run_at(r, at, len) }
/// Some pattern matches the row
pub open spec fn some_match(v: Seq<Regex>, r: Seq<Bell>) -> bool { exists|j: int| 0 <= j < v.len() && rx((#[trigger] v[j]).elems@, r) }
pub open spec fn front_pat(b: Seq<Bell>) -> Pat { only(b) + glob() }
pub open spec fn back_pat(b: Seq<Bell>) -> Pat { glob() + only(b) }
pub open spec fn any_pat(b: Seq<Bell>) -> Pat { norm(glob() + only(b) + glob()) }
/// The patterns of every run of this length on n bells
pub open spec fn is_runs(v: Seq<Regex>, n: int, len: int, pat: spec_fn(Seq<Bell>) -> Pat) -> bool { if len > n { v.len() == 0 } else { is_runs_to(v, n - len + 1, len, pat) } }
pub open spec fn is_runs_to(v: Seq<Regex>, m: int, len: int, pat: spec_fn(Seq<Bell>) -> Pat) -> bool { v.len() == 2 * m && forall|i: int| 0 <= i < m ==> #[trigger] pair_at(v, i, pat(up(i, len)), pat(down(i, len))) }
pub open spec fn pair_at(v: Seq<Regex>, i: int, a: Pat, b: Pat) -> bool { v[2 * i].elems@ == a && v[2 * i + 1].elems@ == b }
pub open spec fn either(pat: spec_fn(Seq<Bell>) -> Pat, i: int, len: int, r: Seq<Bell>) -> bool { rx(pat(up(i, len)), r) || rx(pat(down(i, len)), r) }
pub proof fn lemma_only(b: Seq<Bell>, q: Pat, r: Seq<Bell>)
    ensures rx(only(b) + q, r) <==> r.len() >= b.len() && r.take(b.len() as int) == b && rx(q, r.skip(b.len() as int))
    decreases b.len()
{
    if b.len() == 0 { assert(only(b) + q =~= q); assert(r.skip(0) =~= r); assert(r.take(0) =~= b); } else {
        let (c, e) = (b.skip(1), only(b) + q);
        assert(e[0] == RegexElem::Bell(b[0])); assert(e.skip(1) =~= only(c) + q);
        if r.len() > 0 {
            lemma_only(c, q, r.skip(1));
            if r.len() >= b.len() {
                assert(r.skip(1).skip(c.len() as int) =~= r.skip(b.len() as int));
                let (t, u) = (r.take(b.len() as int), r.skip(1).take(c.len() as int));
                assert(t.skip(1) =~= u);
                if u == c && r[0] == b[0] { assert(t =~= b) by { assert forall|k: int| 0 <= k < t.len() implies t[k] == b[k] by { if k > 0 { assert(t[k] == u[k - 1]); assert(b[k] == c[k - 1]); } } } }
            }
        }
    }
}
pub proof fn lemma_glob(q: Pat, r: Seq<Bell>)
    ensures rx(glob() + q, r) <==> exists|k: int| #![trigger r.skip(k)] 0 <= k <= r.len() && rx(q, r.skip(k))
{ let e = glob() + q; assert(e.skip(1) =~= q); assert(e[0] is Glob); }
pub proof fn lemma_front(b: Seq<Bell>, r: Seq<Bell>)
    ensures rx(front_pat(b), r) <==> r.len() >= b.len() && r.take(b.len() as int) == b
{ lemma_only(b, glob(), r); if r.len() >= b.len() { let q = r.skip(b.len() as int); lemma_rx_wild(0, true, q); assert(wild(0, true) =~= glob()); } }
pub proof fn lemma_back(b: Seq<Bell>, r: Seq<Bell>)
    ensures rx(back_pat(b), r) <==> r.len() >= b.len() && r.skip(r.len() - b.len()) == b
{
    lemma_glob(only(b), r);
    assert forall|k: int| 0 <= k <= r.len() implies #[trigger] rx(only(b), r.skip(k)) == (k == r.len() - b.len() && r.skip(k) == b) by {
        let q = r.skip(k);
        lemma_only(b, seq![], q); assert(only(b) + seq![] =~= only(b));
        if q.len() >= b.len() { assert(rx(seq![], q.skip(b.len() as int)) == (q.len() == b.len())); if q.len() == b.len() { assert(q.take(b.len() as int) =~= q); } }
    }
    if r.len() >= b.len() && r.skip(r.len() - b.len()) == b { assert(rx(only(b), r.skip(r.len() - b.len()))); }
}
pub proof fn lemma_anywhere(b: Seq<Bell>, r: Seq<Bell>)
    ensures rx(any_pat(b), r) <==> exists|k: int| 0 <= k && k + b.len() <= r.len() && #[trigger] r.subrange(k, k + b.len()) == b
{
    let e = glob() + only(b) + glob();
    lemma_norm_rx(e); assert(rx(e, r) == rx(norm(e), r));
    assert(e =~= glob() + front_pat(b));
    lemma_glob(front_pat(b), r);
    assert forall|k: int| 0 <= k <= r.len() implies #[trigger] rx(front_pat(b), r.skip(k)) == (k + b.len() <= r.len() && r.subrange(k, k + b.len()) == b) by {
        lemma_front(b, r.skip(k));
        if k + b.len() <= r.len() { assert(r.skip(k).take(b.len() as int) =~= r.subrange(k, k + b.len())); }
    }
    if exists|k: int| 0 <= k && k + b.len() <= r.len() && #[trigger] r.subrange(k, k + b.len()) == b {
        let k = choose|k: int| 0 <= k && k + b.len() <= r.len() && #[trigger] r.subrange(k, k + b.len()) == b;
        assert(rx(front_pat(b), r.skip(k)));
    }
}
/// Consecutive bells are one of the runs
pub proof fn lemma_asc(r: Seq<Bell>, at: int, len: int, k: int)
    requires 0 <= k < len, ascending(r, at, len)
    ensures r[at + k].index == r[at].index + k
    decreases k
{ if k > 0 { lemma_asc(r, at, len, k - 1); assert(r[at + (k - 1)].index + 1 == r[at + ((k - 1) + 1)].index); } else { assert(at + k == at); } }
pub proof fn lemma_desc(r: Seq<Bell>, at: int, len: int, k: int)
    requires 0 <= k < len, descending(r, at, len)
    ensures r[at + k].index == r[at].index - k
    decreases k
{ if k > 0 { lemma_desc(r, at, len, k - 1); assert(r[at + (k - 1)].index == r[at + ((k - 1) + 1)].index + 1); } else { assert(at + k == at); } }
pub open spec fn run_from(r: Seq<Bell>, at: int, len: int, i: int) -> bool { r.subrange(at, at + len) == up(i, len) || r.subrange(at, at + len) == down(i, len) }
pub proof fn lemma_run(r: Seq<Bell>, at: int, len: int)
    requires valid(r), fits(r), 0 <= len, 0 <= at, at + len <= r.len()
    ensures run_at(r, at, len) <==> exists|i: int| 0 <= i <= r.len() - len && #[trigger] run_from(r, at, len, i)
{
    let s = r.subrange(at, at + len);
    if run_at(r, at, len) {
        if len == 0 { assert(s =~= up(0, 0)); assert(run_from(r, at, len, 0)); }
        else if ascending(r, at, len) {
            let i = r[at].index as int;
            assert forall|k: int| 0 <= k < len implies s[k] == #[trigger] up(i, len)[k] by { lemma_asc(r, at, len, k); }
            lemma_asc(r, at, len, len - 1);
            assert(s =~= up(i, len)); assert(run_from(r, at, len, i));
        } else {
            lemma_desc(r, at, len, len - 1);
            let i = r[at].index - (len - 1);
            assert forall|k: int| 0 <= k < len implies s[k] == #[trigger] down(i, len)[k] by { lemma_desc(r, at, len, k); }
            assert(s =~= down(i, len)); assert(run_from(r, at, len, i));
        }
    }
    if exists|i: int| 0 <= i <= r.len() - len && #[trigger] run_from(r, at, len, i) {
        let i = choose|i: int| 0 <= i <= r.len() - len && #[trigger] run_from(r, at, len, i);
        if s == up(i, len) { assert forall|k: int| 0 <= k < len - 1 implies (#[trigger] r[at + k]).index + 1 == r[at + (k + 1)].index by { assert(s[k] == r[at + k]); assert(s[k + 1] == r[at + (k + 1)]); assert(up(i, len)[k].index == i + k); assert(up(i, len)[k + 1].index == i + k + 1); } }
        else { assert forall|k: int| 0 <= k < len - 1 implies (#[trigger] r[at + k]).index == r[at + (k + 1)].index + 1 by { assert(s[k] == r[at + k]); assert(s[k + 1] == r[at + (k + 1)]); } }
    }
}
pub proof fn lemma_only_normal(b: Seq<Bell>)
    ensures normal(front_pat(b)), normal(back_pat(b)), normal(any_pat(b))
{ lemma_norm(glob() + only(b) + glob()); }
pub proof fn lemma_all_normal(v: Seq<Regex>, n: int, len: int, pat: spec_fn(Seq<Bell>) -> Pat)
    requires is_runs(v, n, len, pat), forall|b: Seq<Bell>| normal(#[trigger] pat(b))
    ensures forall|j: int| 0 <= j < v.len() ==> normal((#[trigger] v[j]).elems@)
{
    assert forall|j: int| 0 <= j < v.len() implies normal((#[trigger] v[j]).elems@) by {
        let i = j / 2;
        assert(pair_at(v, i, pat(up(i, len)), pat(down(i, len)))); assert(normal(pat(up(i, len)))); assert(normal(pat(down(i, len))));
        assert(j == 2 * i || j == 2 * i + 1);
    }
}
pub open spec fn pat_front() -> spec_fn(Seq<Bell>) -> Pat { |b: Seq<Bell>| front_pat(b) }
pub open spec fn pat_back() -> spec_fn(Seq<Bell>) -> Pat { |b: Seq<Bell>| back_pat(b) }
pub open spec fn pat_any() -> spec_fn(Seq<Bell>) -> Pat { |b: Seq<Bell>| any_pat(b) }
/// Some pattern of a list of runs matches exactly when one of the runs does
pub proof fn lemma_some(v: Seq<Regex>, n: int, len: int, pat: spec_fn(Seq<Bell>) -> Pat, r: Seq<Bell>)
    requires is_runs(v, n, len, pat), 0 <= len
    ensures some_match(v, r) <==> exists|i: int| 0 <= i <= n - len && #[trigger] either(pat, i, len, r)
{
    if some_match(v, r) {
        let j = choose|j: int| 0 <= j < v.len() && rx((#[trigger] v[j]).elems@, r);
        let i = j / 2;
        assert(pair_at(v, i, pat(up(i, len)), pat(down(i, len)))); assert(j == 2 * i || j == 2 * i + 1);
        assert(either(pat, i, len, r));
    }
    if exists|i: int| 0 <= i <= n - len && #[trigger] either(pat, i, len, r) {
        let i = choose|i: int| 0 <= i <= n - len && #[trigger] either(pat, i, len, r);
        assert(pair_at(v, i, pat(up(i, len)), pat(down(i, len))));
        if rx(pat(up(i, len)), r) { assert(rx(v[2 * i].elems@, r)); } else { assert(rx(v[2 * i + 1].elems@, r)); }
    }
}
pub proof fn lemma_runs_front(v: Seq<Regex>, r: Seq<Bell>, len: int)
    requires is_runs(v, r.len() as int, len, pat_front()), valid(r), fits(r), 0 <= len
    ensures some_match(v, r) <==> run_at(r, 0, len)
{
    let n = r.len() as int;
    lemma_some(v, n, len, pat_front(), r);
    if len <= n {
        lemma_run(r, 0, len);
        assert(r.subrange(0, len) =~= r.take(len));
        assert forall|i: int| #[trigger] run_from(r, 0, len, i) == either(pat_front(), i, len, r) by { lemma_front(up(i, len), r); lemma_front(down(i, len), r); }
        if exists|i: int| 0 <= i <= n - len && #[trigger] run_from(r, 0, len, i) { let i = choose|i: int| 0 <= i <= n - len && #[trigger] run_from(r, 0, len, i); assert(either(pat_front(), i, len, r)); }
        if exists|i: int| 0 <= i <= n - len && #[trigger] either(pat_front(), i, len, r) { let i = choose|i: int| 0 <= i <= n - len && #[trigger] either(pat_front(), i, len, r); assert(run_from(r, 0, len, i)); }
    }
}
pub proof fn lemma_runs_back(v: Seq<Regex>, r: Seq<Bell>, len: int)
    requires is_runs(v, r.len() as int, len, pat_back()), valid(r), fits(r), 0 <= len
    ensures some_match(v, r) <==> run_at(r, r.len() - len, len)
{
    let n = r.len() as int;
    lemma_some(v, n, len, pat_back(), r);
    if len <= n {
        lemma_run(r, n - len, len);
        assert(r.subrange(n - len, n) =~= r.skip(n - len));
        assert forall|i: int| #[trigger] run_from(r, n - len, len, i) == either(pat_back(), i, len, r) by { lemma_back(up(i, len), r); lemma_back(down(i, len), r); }
        if exists|i: int| 0 <= i <= n - len && #[trigger] run_from(r, n - len, len, i) { let i = choose|i: int| 0 <= i <= n - len && #[trigger] run_from(r, n - len, len, i); assert(either(pat_back(), i, len, r)); }
        if exists|i: int| 0 <= i <= n - len && #[trigger] either(pat_back(), i, len, r) { let i = choose|i: int| 0 <= i <= n - len && #[trigger] either(pat_back(), i, len, r); assert(run_from(r, n - len, len, i)); }
    }
}
pub proof fn lemma_runs_all(v: Seq<Regex>, r: Seq<Bell>, len: int)
    requires is_runs(v, r.len() as int, len, pat_any()), valid(r), fits(r), 0 <= len
    ensures some_match(v, r) <==> run_anywhere(r, len)
{
    let n = r.len() as int;
    lemma_some(v, n, len, pat_any(), r);
    if run_anywhere(r, len) {
        let at = choose|at: int| #[trigger] run_at(r, at, len);
        lemma_run(r, at, len);
        let i = choose|i: int| 0 <= i <= n - len && #[trigger] run_from(r, at, len, i);
        lemma_anywhere(up(i, len), r); lemma_anywhere(down(i, len), r);
        assert(r.subrange(at, at + len) == up(i, len) || r.subrange(at, at + len) == down(i, len));
        assert(either(pat_any(), i, len, r));
    }
    if exists|i: int| 0 <= i <= n - len && #[trigger] either(pat_any(), i, len, r) {
        let i = choose|i: int| 0 <= i <= n - len && #[trigger] either(pat_any(), i, len, r);
        assert(either(pat_any(), i, len, r));
        let b = if rx(pat_any()(up(i, len)), r) { up(i, len) } else { down(i, len) };
        lemma_anywhere(b, r);
        let k = choose|k: int| 0 <= k && k + b.len() <= r.len() && #[trigger] r.subrange(k, k + b.len()) == b;
        lemma_run(r, k, len); assert(run_from(r, k, len, i)); assert(run_at(r, k, len));
    }
}
@fn music::Regex::runs_front
    requires stage.0 > 0, stage.0 * 2 <= usize::MAX
    ensures is_runs(res@, stage.0 as int, len as int, pat_front()), forall|j: int| 0 <= j < res@.len() ==> normal((#[trigger] res@[j]).elems@),
        forall|r: Seq<Bell>| valid(r) && r.len() == stage.0 ==> #[trigger] some_match(res@, r) == run_at(r, 0, len as int)
@closure 0 |b: Bell| -> (r: RegexElem) ensures r == RegexElem::Bell(b)
@loop 0
    invariant is_runs_to(runs@, k_0, len as int, pat_front()), len <= num_bells, num_bells == stage.0, xs_0 == range_seq(0, num_bells - len + 1)
@hint loop 0 end
    proof { assert forall|i: int| 0 <= i < k_0 implies #[trigger] pair_at(runs@, i, pat_front()(up(i, len as int)), pat_front()(down(i, len as int))) by { if i < k_0 - 1 { assert(pair_at(runs0, i, pat_front()(up(i, len as int)), pat_front()(down(i, len as int)))); } } }
@hint end
    proof { assert forall|b: Seq<Bell>| normal(#[trigger] pat_front()(b)) by { lemma_only_normal(b); } lemma_all_normal(res@, stage.0 as int, len as int, pat_front());
        assert forall|r: Seq<Bell>| valid(r) && r.len() == stage.0 implies #[trigger] some_match(res@, r) == run_at(r, 0, len as int) by { lemma_runs_front(res@, r, len as int); } }
@hint loop 0 start
    let ghost runs0 = runs@;
    proof { assert(i == k_0 - 1); }
@hint after let ascending_regex
    proof { assert(i == k_0 - 1); assert(run_iterator@ =~= only(up(i as int, len as int))); assert(descending_regex.elems@ =~= front_pat(up(i as int, len as int))); assert(ascending_regex.elems@ =~= front_pat(down(i as int, len as int))); }
@fn music::Regex::runs_back
    requires stage.0 > 0, stage.0 * 2 <= usize::MAX
    ensures is_runs(res@, stage.0 as int, len as int, pat_back()), forall|j: int| 0 <= j < res@.len() ==> normal((#[trigger] res@[j]).elems@),
        forall|r: Seq<Bell>| valid(r) && r.len() == stage.0 ==> #[trigger] some_match(res@, r) == run_at(r, r.len() - len, len as int)
@closure 0 |b: Bell| -> (r: RegexElem) ensures r == RegexElem::Bell(b)
@loop 0
    invariant is_runs_to(runs@, k_0, len as int, pat_back()), len <= num_bells, num_bells == stage.0, xs_0 == range_seq(0, num_bells - len + 1)
@hint loop 0 end
    proof { assert forall|i: int| 0 <= i < k_0 implies #[trigger] pair_at(runs@, i, pat_back()(up(i, len as int)), pat_back()(down(i, len as int))) by { if i < k_0 - 1 { assert(pair_at(runs0, i, pat_back()(up(i, len as int)), pat_back()(down(i, len as int)))); } } }
@hint end
    proof { assert forall|b: Seq<Bell>| normal(#[trigger] pat_back()(b)) by { lemma_only_normal(b); } lemma_all_normal(res@, stage.0 as int, len as int, pat_back());
        assert forall|r: Seq<Bell>| valid(r) && r.len() == stage.0 implies #[trigger] some_match(res@, r) == run_at(r, r.len() - len, len as int) by { lemma_runs_back(res@, r, len as int); } }
@hint loop 0 start
    let ghost runs0 = runs@;
    proof { assert(i == k_0 - 1); }
@hint after let ascending_regex
    proof { assert(i == k_0 - 1); assert(run_iterator@ =~= only(up(i as int, len as int))); assert(descending_regex.elems@ =~= back_pat(up(i as int, len as int))); assert(ascending_regex.elems@ =~= back_pat(down(i as int, len as int))); }
@fn music::Regex::all_runs
    requires stage.0 > 0, stage.0 * 2 <= usize::MAX
    ensures is_runs(res@, stage.0 as int, len as int, pat_any()), forall|j: int| 0 <= j < res@.len() ==> normal((#[trigger] res@[j]).elems@),
        forall|r: Seq<Bell>| valid(r) && r.len() == stage.0 ==> #[trigger] some_match(res@, r) == run_anywhere(r, len as int)
@closure 0 |b: Bell| -> (r: RegexElem) ensures r == RegexElem::Bell(b)
@loop 0
    invariant is_runs_to(runs@, k_0, len as int, pat_any()), len <= num_bells, num_bells == stage.0, xs_0 == range_seq(0, num_bells - len + 1)
@hint loop 0 end
    proof { assert forall|i: int| 0 <= i < k_0 implies #[trigger] pair_at(runs@, i, pat_any()(up(i, len as int)), pat_any()(down(i, len as int))) by { if i < k_0 - 1 { assert(pair_at(runs0, i, pat_any()(up(i, len as int)), pat_any()(down(i, len as int)))); } } }
@hint end
    proof { assert forall|b: Seq<Bell>| normal(#[trigger] pat_any()(b)) by { lemma_only_normal(b); } lemma_all_normal(res@, stage.0 as int, len as int, pat_any());
        assert forall|r: Seq<Bell>| valid(r) && r.len() == stage.0 implies #[trigger] some_match(res@, r) == run_anywhere(r, len as int) by { lemma_runs_all(res@, r, len as int); } }
@hint loop 0 start
    let ghost runs0 = runs@;
    proof { assert(i == k_0 - 1); }
@hint after let ascending_regex
    proof { assert(i == k_0 - 1); assert(run_iterator@ =~= only(up(i as int, len as int))); assert(rev_seq(run_iterator@) =~= only(down(i as int, len as int))); assert(descending_regex.elems@ =~= any_pat(up(i as int, len as int))); assert(ascending_regex.elems@ =~= any_pat(down(i as int, len as int))); }
@fn music::Regex::runs_front_or_back
    requires stage.0 > 0, stage.0 * 2 <= usize::MAX
    ensures len > stage.0 ==> res@.len() == 0, forall|j: int| 0 <= j < res@.len() ==> normal((#[trigger] res@[j]).elems@),
        forall|r: Seq<Bell>| valid(r) && r.len() == stage.0 ==> #[trigger] some_match(res@, r) == (run_at(r, 0, len as int) || run_at(r, r.len() - len, len as int))
@hint start
    let ghost mut fr: Seq<Regex> = seq![];
@hint after call extend#0
    proof { fr = runs@; assert forall|r: Seq<Bell>| valid(r) && r.len() == stage.0 implies #[trigger] some_match(fr, r) == run_at(r, 0, len as int) by { } }
@hint end
    proof {
        let bk = res@.skip(fr.len() as int);
        assert forall|x: Seq<Regex>| (#[trigger] (fr + x)).skip(fr.len() as int) == x by { assert((fr + x).skip(fr.len() as int) =~= x); }
        assert(res@ =~= fr + bk);
        assert forall|r: Seq<Bell>| valid(r) && r.len() == stage.0 implies #[trigger] some_match(res@, r) == (run_at(r, 0, len as int) || run_at(r, r.len() - len, len as int)) by { lemma_match_app(fr, bk, r); assert(some_match(fr, r) == run_at(r, 0, len as int)); assert(some_match(bk, r) == run_at(r, r.len() - len, len as int)); }
        assert forall|j: int| 0 <= j < res@.len() implies normal((#[trigger] res@[j]).elems@) by { if j < fr.len() { assert(normal(fr[j].elems@)); } else { assert(normal(bk[j - fr.len()].elems@)); } }
    }
@fn music::Regex::runs
    requires stage.0 > 0, stage.0 * 2 <= usize::MAX
    ensures len > stage.0 ==> res@.len() == 0, forall|j: int| 0 <= j < res@.len() ==> normal((#[trigger] res@[j]).elems@),
        forall|r: Seq<Bell>| valid(r) && r.len() == stage.0 ==> #[trigger] some_match(res@, r) == (if internal { run_anywhere(r, len as int) } else { run_at(r, 0, len as int) || run_at(r, r.len() - len, len as int) })
@mod music
pub proof fn lemma_match_app(a: Seq<Regex>, b: Seq<Regex>, r: Seq<Bell>)
    ensures some_match(a + b, r) == (some_match(a, r) || some_match(b, r))
{
    let c = a + b;
    if some_match(a, r) { let j = choose|j: int| 0 <= j < a.len() && rx((#[trigger] a[j]).elems@, r); assert(rx(c[j].elems@, r)); }
    if some_match(b, r) { let j = choose|j: int| 0 <= j < b.len() && rx((#[trigger] b[j]).elems@, r); assert(rx(c[a.len() + j].elems@, r)); }
    if some_match(c, r) { let j = choose|j: int| 0 <= j < c.len() && rx((#[trigger] c[j]).elems@, r); if j < a.len() { assert(rx(a[j].elems@, r)); } else { assert(rx(b[j - a.len()].elems@, r)); } }
}
