// Assumed contracts for std and itertools (the only code outside /repo that the verified functions call).
// Iterators are modelled by the sequence of the items still to come.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;

pub struct It<T> { pub v: Vec<T> }
impl<T: Copy> Clone for It<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<T> View for It<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }

// Result of filter_map, relationally: keep the `Some`s that `f` may return, in order
pub open spec fn fm_rel<T, U, F: FnMut(T) -> Option<U>>(f: F, xs: Seq<T>, ys: Seq<U>) -> bool
    decreases xs.len()
{
    if xs.len() == 0 { ys.len() == 0 } else {
        ||| (call_ensures(f, (xs.last(),), None::<U>) && fm_rel(f, xs.drop_last(), ys))
        ||| (ys.len() > 0 && call_ensures(f, (xs.last(),), Some(ys.last())) && fm_rel(f, xs.drop_last(), ys.drop_last()))
    }
}
pub open spec fn opt_map<T, U>(xs: Seq<T>, g: spec_fn(T) -> Option<U>) -> Seq<U>
    decreases xs.len()
{
    if xs.len() == 0 { Seq::empty() } else {
        match g(xs.last()) {
            None => opt_map(xs.drop_last(), g),
            Some(y) => opt_map(xs.drop_last(), g).push(y),
        }
    }
}
pub proof fn lemma_fm<T, U, F: FnMut(T) -> Option<U>>(f: F, xs: Seq<T>, ys: Seq<U>, g: spec_fn(T) -> Option<U>)
    requires fm_rel(f, xs, ys), forall|x: T, o: Option<U>| #[trigger] call_ensures(f, (x,), o) ==> o == g(x),
    ensures ys == opt_map(xs, g)
    decreases xs.len()
{
    if xs.len() == 0 { assert(ys =~= opt_map(xs, g)); } else {
        if call_ensures(f, (xs.last(),), None::<U>) && fm_rel(f, xs.drop_last(), ys) {
            lemma_fm(f, xs.drop_last(), ys, g);
            assert(g(xs.last()) == None::<U>);
        } else {
            lemma_fm(f, xs.drop_last(), ys.drop_last(), g);
            assert(g(xs.last()) == Some(ys.last()));
            assert(ys =~= ys.drop_last().push(ys.last()));
        }
    }
}
pub open spec fn fl_rel<T, F: FnMut(&T) -> bool>(f: F, xs: Seq<T>, ys: Seq<T>) -> bool
    decreases xs.len()
{
    if xs.len() == 0 { ys.len() == 0 } else {
        ||| (call_ensures(f, (&xs.last(),), false) && fl_rel(f, xs.drop_last(), ys))
        ||| (ys.len() > 0 && ys.last() == xs.last() && call_ensures(f, (&xs.last(),), true) && fl_rel(f, xs.drop_last(), ys.drop_last()))
    }
}
pub open spec fn keep<T>(xs: Seq<T>, g: spec_fn(T) -> bool) -> Seq<T>
    decreases xs.len()
{
    if xs.len() == 0 { Seq::empty() } else if g(xs.last()) { keep(xs.drop_last(), g).push(xs.last()) } else { keep(xs.drop_last(), g) }
}
pub proof fn lemma_fl<T, F: FnMut(&T) -> bool>(f: F, xs: Seq<T>, ys: Seq<T>, g: spec_fn(T) -> bool)
    requires fl_rel(f, xs, ys), forall|x: T, o: bool| #[trigger] call_ensures(f, (&x,), o) ==> o == g(x),
    ensures ys == keep(xs, g)
    decreases xs.len()
{
    if xs.len() == 0 { assert(ys =~= keep(xs, g)); } else {
        if call_ensures(f, (&xs.last(),), false) && fl_rel(f, xs.drop_last(), ys) {
            lemma_fl(f, xs.drop_last(), ys, g);
        } else {
            lemma_fl(f, xs.drop_last(), ys.drop_last(), g);
            assert(ys =~= ys.drop_last().push(ys.last()));
        }
    }
}
pub open spec fn range_seq(a: int, b: int) -> Seq<usize> { Seq::new(if b > a { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) }
pub open spec fn rev_seq<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn enum_seq<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub open spec fn deref_seq<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn ref_seq<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn step_seq<T>(s: Seq<T>, n: int) -> Seq<T> { Seq::new(((s.len() + n - 1) / n) as nat, |i: int| s[i * n]) }
pub open spec fn rep_seq<T>(x: T, n: nat) -> Seq<T> { Seq::new(n, |i: int| x) }

impl<T> It<T> {
    #[verifier::external_body]
    pub fn vf_iter_clone(&self) -> (r: It<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: It<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_has_next(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: T) requires old(self)@.len() > 0
        ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(&self@[0]) { unimplemented!() }
    #[verifier::external_body]
    pub fn peekable(self) -> (r: It<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_into_iter(self) -> (r: It<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger ix(i)] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_filter_map_raw<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (self@[i],)),
        ensures fm_rel(f, self@, r@) { unimplemented!() }
    pub fn filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (self@[i],)),
        ensures fm_rel(f, self@, r@),
            forall|g: spec_fn(T) -> Option<U>| (forall|x: T, o: Option<U>| #[trigger] call_ensures(f, (x,), o) ==> o == g(x)) ==> r@ == #[trigger] opt_map(self@, g)
    {
        let ghost xs = self@;
        let ghost ff = f;
        let r = self.vf_filter_map_raw(f);
        proof {
            assert forall|g: spec_fn(T) -> Option<U>| (forall|x: T, o: Option<U>| #[trigger] call_ensures(ff, (x,), o) ==> o == g(x)) implies r@ == #[trigger] opt_map(xs, g) by { lemma_fm(ff, xs, r@, g); }
        }
        r
    }
    #[verifier::external_body]
    pub fn vf_filter_raw<F: FnMut(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (&self@[i],)),
        ensures fl_rel(f, self@, r@) { unimplemented!() }
    pub fn filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (&self@[i],)),
        ensures fl_rel(f, self@, r@),
            forall|g: spec_fn(T) -> bool| (forall|x: T, o: bool| #[trigger] call_ensures(f, (&x,), o) ==> o == g(x)) ==> r@ == #[trigger] keep(self@, g)
    {
        let ghost xs = self@;
        let ghost ff = f;
        let r = self.vf_filter_raw(f);
        proof {
            assert forall|g: spec_fn(T) -> bool| (forall|x: T, o: bool| #[trigger] call_ensures(ff, (&x,), o) ==> o == g(x)) implies r@ == #[trigger] keep(xs, g) by { lemma_fl(ff, xs, r@, g); }
        }
        r
    }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>) ensures r@ == enum_seq(self@), self@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == rev_seq(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == self@.skip(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == self@.take(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn step_by(self, n: usize) -> (r: It<T>) requires n > 0 ensures r@ == step_seq(self@, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<I: IntoIt<T>>(self, o: I) -> (r: It<T>) ensures r@ == self@ + o.it_seq() { unimplemented!() }
    #[verifier::external_body]
    pub fn zip_eq<U, I: IntoIt<U>>(self, o: I) -> (r: It<(T, U)>)
        requires self@.len() == o.it_seq().len()
        ensures r@ == Seq::new(self@.len(), |i: int| (self@[i], o.it_seq()[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U, I: IntoIt<U>>(self, o: I) -> (r: It<(T, U)>)
        ensures r@ == Seq::new(if self@.len() < o.it_seq().len() { self@.len() } else { o.it_seq().len() }, |i: int| (self@[i], o.it_seq()[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: FromIt<T>>(self) -> (r: C) ensures r.from_it(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] call_requires(f, (old(self)@[i],)),
        ensures r ==> forall|i: int| #![trigger old(self)@[i]] #![trigger ix(i)] 0 <= i < old(self)@.len() ==> call_ensures(f, (old(self)@[i],), true),
            !r ==> exists|i: int| #![trigger old(self)@[i]] 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] call_requires(f, (old(self)@[i],)),
        ensures !r ==> forall|i: int| #![trigger old(self)@[i]] #![trigger ix(i)] 0 <= i < old(self)@.len() ==> call_ensures(f, (old(self)@[i],), false),
            r ==> exists|i: int| #![trigger old(self)@[i]] 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), true) { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] call_requires(f, (old(self)@[i],)),
        ensures match r {
            None => forall|i: int| #![trigger old(self)@[i]] #![trigger ix(i)] 0 <= i < old(self)@.len() ==> call_ensures(f, (old(self)@[i],), false),
            Some(k) => k < old(self)@.len() && call_ensures(f, (old(self)@[k as int],), true)
                && forall|i: int| #![trigger old(self)@[i]] #![trigger ix(i)] 0 <= i < k ==> call_ensures(f, (old(self)@[i],), false),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn positions<F: FnMut(T) -> bool>(self, f: F) -> (r: It<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (self@[i],)),
        ensures self@.len() <= usize::MAX,
            forall|a: int, b: int| 0 <= a < b < r@.len() ==> r@[a] < r@[b],
            forall|i: int| #![trigger self@[i]] #![trigger ix(i)] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@.contains(i as usize)),
            forall|a: int| 0 <= a < r@.len() ==> #[trigger] r@[a] < self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: FnMut(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] call_requires(f, (&old(self)@[i],)),
        ensures match r {
            None => forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (&#[trigger] old(self)@[i],), false),
            Some(x) => exists|k: int| 0 <= k < old(self)@.len() && x == #[trigger] old(self)@[k] && call_ensures(f, (&old(self)@[k],), true)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] old(self)@[i],), false),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (&self@[i],)),
        ensures r@.len() <= self@.len(), r@ == self@.take(r@.len() as int),
            forall|i: int| #![trigger self@[i]] #![trigger ix(i)] 0 <= i < r@.len() ==> call_ensures(f, (&self@[i],), true),
            r@.len() < self@.len() ==> call_ensures(f, (&self@[r@.len() as int],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn tuple_windows(self) -> (r: It<(T, T)>)
        ensures r@ == Seq::new(if self@.len() == 0 { 0nat } else { (self@.len() - 1) as nat }, |i: int| (self@[i], self@[i + 1])) { unimplemented!() }
}
/// `&` and `|`, which are not lazy
pub trait VfBits: Sized { spec fn and_(&self, o: Self) -> Self; spec fn or_(&self, o: Self) -> Self; fn vf_and(self, o: Self) -> (r: Self) ensures r == self.and_(o); fn vf_or(self, o: Self) -> (r: Self) ensures r == self.or_(o); }
impl VfBits for bool {
    open spec fn and_(&self, o: bool) -> bool { *self && o }
    open spec fn or_(&self, o: bool) -> bool { *self || o }
    fn vf_and(self, o: bool) -> (r: bool) { self && o }
    fn vf_or(self, o: bool) -> (r: bool) { self || o }
}
impl VfBits for usize {
    open spec fn and_(&self, o: usize) -> usize { *self & o }
    open spec fn or_(&self, o: usize) -> usize { *self | o }
    fn vf_and(self, o: usize) -> (r: usize) ensures o == 1 ==> r == self % 2
    {
        let s = self;
        proof { if o == 1 { assert(s & 1 == s % 2) by (bit_vector); } }
        self & o
    }
    fn vf_or(self, o: usize) -> (r: usize) { self | o }
}
#[verifier::opaque]
pub open spec fn wrap(i: int, n: int) -> int { i % n }
pub proof fn lemma_wrap(i: int, n: int) requires n > 0 ensures 0 <= wrap(i, n) < n, 0 <= i < n ==> wrap(i, n) == i, n <= i < 2 * n ==> wrap(i, n) == i - n
{
    reveal(wrap); vstd::arithmetic::div_mod::lemma_mod_bound(i, n);
    if 0 <= i < n { vstd::arithmetic::div_mod::lemma_small_mod(i as nat, n as nat); }
    if n <= i < 2 * n { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, n, 1, i - n); }
}
/// Windows which wrap round at the end
pub trait VfWindow<T>: Sized { spec fn window(s: Seq<T>, i: int) -> Self; }
impl<T> VfWindow<T> for (T, T) { open spec fn window(s: Seq<T>, i: int) -> (T, T) { (s[i], s[wrap(i + 1, s.len() as int)]) } }
impl<T> VfWindow<T> for (T, T, T) { open spec fn window(s: Seq<T>, i: int) -> (T, T, T) { (s[i], s[wrap(i + 1, s.len() as int)], s[wrap(i + 2, s.len() as int)]) } }
/// A sequence repeated for ever, starting `at` items in
pub struct Cyc<T> { pub v: Vec<T>, pub at: Ghost<int> }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn circular_tuple_windows<W: VfWindow<T>>(self) -> (r: It<W>) ensures r@ == Seq::new(self@.len(), |i: int| W::window(self@, i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn cycle(self) -> (r: Cyc<T>) ensures r.v@ == self@, r.at@ == 0 { unimplemented!() }
}
impl<T> Cyc<T> {
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: Cyc<T>) ensures r.v@ == self.v@, r.at@ == self.at@ + n { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == Seq::new(if self.v@.len() == 0 { 0nat } else { n as nat }, |i: int| self.v@[(self.at@ + i) % self.v@.len() as int]) { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U, I: IntoIt<U>>(self, o: I) -> (r: It<(T, U)>)
        ensures r@ == Seq::new(if self.v@.len() == 0 { 0nat } else { o.it_seq().len() }, |i: int| (self.v@[(self.at@ + i) % self.v@.len() as int], o.it_seq()[i])) { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>) ensures r@ == deref_seq(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: It<T>) ensures r@ == deref_seq(self@) { unimplemented!() }
}

impl<'a, T: Clone> It<&'a T> {
    /// `cloned` for any type: each element is what cloning gives
    #[verifier::external_body]
    pub fn vf_cloned_gen(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger ix(i)] 0 <= i < self@.len() ==> cloned(*self@[i], r@[i]) { unimplemented!() }
}
/// Types whose ordering is that of a number
pub trait VfOrd: Sized { spec fn rank(&self) -> int; }
pub open spec fn ordered(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
impl<T: VfOrd> VfOrd for &T { open spec fn rank(&self) -> int { (**self).rank() } }
impl VfOrd for usize { open spec fn rank(&self) -> int { *self as int } }
impl VfOrd for isize { open spec fn rank(&self) -> int { *self as int } }
impl VfOrd for crate::stage::Stage { open spec fn rank(&self) -> int { self.0 as int } }
impl VfOrd for crate::bell::Bell { open spec fn rank(&self) -> int { self.index as int } }
#[verifier::external_body]
pub fn vf_min<T: VfOrd>(a: T, b: T) -> (r: T) ensures r == (if b.rank() < a.rank() { b } else { a }) { unimplemented!() }
#[verifier::external_body]
pub fn vf_max<T: VfOrd>(a: T, b: T) -> (r: T) ensures r == (if a.rank() > b.rank() { a } else { b }) { unimplemented!() }
impl<T: VfOrd> It<T> {
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<T>) ensures match r {
        None => self@.len() == 0,
        Some(m) => (exists|i: int| 0 <= i < self@.len() && m == #[trigger] self@[i]) && forall|i: int| #![trigger self@[i]] #![trigger ix(i)] 0 <= i < self@.len() ==> self@[i].rank() <= m.rank() } { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self) -> (r: Option<T>) ensures match r {
        None => self@.len() == 0,
        Some(m) => (exists|i: int| 0 <= i < self@.len() && m == #[trigger] self@[i]) && forall|i: int| #![trigger self@[i]] #![trigger ix(i)] 0 <= i < self@.len() ==> self@[i].rank() >= m.rank() } { unimplemented!() }
}
pub struct RepeatWith<F> { pub f: F }
pub fn repeat_with<F>(f: F) -> (r: RepeatWith<F>) ensures r.f == f { RepeatWith { f } }
impl<F> RepeatWith<F> {
    #[verifier::external_body]
    pub fn take<T>(self, n: usize) -> (r: It<T>) where F: FnMut() -> T
        requires call_requires(self.f, ())
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> call_ensures(self.f, (), #[trigger] r@[i]) { unimplemented!() }
}
/// A name for an index, with which a proof can pick an element of every sequence in a chain of adapters
pub open spec fn ix(i: int) -> bool { true }
// Things that can be iterated over
pub trait IntoIt<T>: Sized {
    spec fn it_seq(&self) -> Seq<T>;
    fn vf_it(self) -> (r: It<T>) ensures r@ == self.it_seq();
}
impl<T> IntoIt<T> for It<T> {
    open spec fn it_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vf_it(self) -> It<T> { unimplemented!() }
}
impl<T> IntoIt<T> for Vec<T> {
    open spec fn it_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vf_it(self) -> It<T> { unimplemented!() }
}
impl<'a, T> IntoIt<&'a T> for &'a Vec<T> {
    open spec fn it_seq(&self) -> Seq<&'a T> { ref_seq((**self)@) }
    #[verifier::external_body] fn vf_it(self) -> It<&'a T> { unimplemented!() }
}
impl<'a, T> IntoIt<&'a T> for &'a [T] {
    open spec fn it_seq(&self) -> Seq<&'a T> { ref_seq((**self)@) }
    #[verifier::external_body] fn vf_it(self) -> It<&'a T> { unimplemented!() }
}
impl IntoIt<usize> for core::ops::Range<usize> {
    open spec fn it_seq(&self) -> Seq<usize> { range_seq(self.start as int, self.end as int) }
    #[verifier::external_body] fn vf_it(self) -> It<usize> { unimplemented!() }
}
impl IntoIt<usize> for core::ops::RangeInclusive<usize> {
    open spec fn it_seq(&self) -> Seq<usize> { range_seq(self@.start as int, if self@.exhausted { self@.start as int } else { self@.end + 1 }) }
    #[verifier::external_body] fn vf_it(self) -> It<usize> { unimplemented!() }
}
pub fn vf_into_it<T, I: IntoIt<T>>(i: I) -> (r: It<T>) ensures r@ == i.it_seq() { i.vf_it() }

pub trait FromIt<T>: Sized { spec fn from_it(&self, s: Seq<T>) -> bool; }
impl<T> FromIt<T> for Vec<T> { open spec fn from_it(&self, s: Seq<T>) -> bool { self@ == s } }

// Borrowing iteration over slices
pub trait VfIter<T> {
    spec fn sl(&self) -> Seq<T>;
    fn vf_iter(&self) -> (r: It<&T>) ensures r@ == ref_seq(self.sl());
}
impl<T> VfIter<T> for [T] {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vf_iter(&self) -> (r: It<&T>) { unimplemented!() }
}
impl<T> VfIter<T> for Vec<T> {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vf_iter(&self) -> (r: It<&T>) { unimplemented!() }
}
pub trait VfSlice<T> {
    spec fn vs(&self) -> Seq<T>;
    unsafe fn vf_get_unchecked(&self, i: usize) -> (r: &T) requires i < self.vs().len() ensures *r == self.vs()[i as int];
    fn vf_to_vec(&self) -> (r: Vec<T>) where T: Copy ensures r@ == self.vs();
    fn vf_split_inclusive<F: FnMut(&T) -> bool>(&self, f: F) -> (r: It<&[T]>)
        requires forall|i: int| 0 <= i < self.vs().len() ==> #[trigger] call_requires(f, (&self.vs()[i],)),
        ensures flat(r@) == self.vs(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@.len() > 0,
            forall|k: int, i: int| 0 <= k < r@.len() && 0 <= i < r@[k]@.len() - 1 ==> call_ensures(f, (&#[trigger] r@[k]@[i],), false),
            forall|k: int| 0 <= k < r@.len() - 1 ==> call_ensures(f, (&(#[trigger] r@[k])@.last(),), true);
}
/// The pieces put back together
pub open spec fn flat<T>(p: Seq<&[T]>) -> Seq<T> decreases p.len() { if p.len() == 0 { Seq::empty() } else { flat(p.drop_last()) + p.last()@ } }
impl<T> VfSlice<T> for [T] {
    #[verifier::external_body] fn vf_split_inclusive<F: FnMut(&T) -> bool>(&self, f: F) -> (r: It<&[T]>) { unimplemented!() }
    open spec fn vs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] unsafe fn vf_get_unchecked(&self, i: usize) -> (r: &T) { unimplemented!() }
    #[verifier::external_body] fn vf_to_vec(&self) -> (r: Vec<T>) where T: Copy { unimplemented!() }
}
pub trait VfVec<T>: Sized {
    spec fn vv(&self) -> Seq<T>;
    fn vf_extend<I: IntoIt<T>>(&mut self, i: I) ensures final(self).vv() == old(self).vv() + i.it_seq();
    fn vf_drain<R: DrainRange>(&mut self, r: R) -> (res: It<T>)
        requires r.ok(old(self).vv().len() as int)
        ensures res@ == old(self).vv().subrange(r.lo(), r.hi(old(self).vv().len() as int)),
            final(self).vv() == old(self).vv().take(r.lo()) + old(self).vv().skip(r.hi(old(self).vv().len() as int));
    fn vf_into_iter(self) -> (r: It<T>) ensures r@ == self.vv();
    fn vf_extend_from_within<R: VfRange>(&mut self, r: R) where T: Clone
        requires 0 <= range_lo(r) <= range_hi(r, old(self).vv().len() as int) <= old(self).vv().len()
        ensures final(self).vv().len() == old(self).vv().len() + range_hi(r, old(self).vv().len() as int) - range_lo(r), final(self).vv().take(old(self).vv().len() as int) == old(self).vv(),
            forall|i: int| old(self).vv().len() <= i < final(self).vv().len() ==> cloned(old(self).vv()[range_lo(r) + i - old(self).vv().len()], #[trigger] final(self).vv()[i]);
}
impl<T> VfVec<T> for Vec<T> {
    #[verifier::external_body] fn vf_extend_from_within<R: VfRange>(&mut self, r: R) where T: Clone { unimplemented!() }
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vf_extend<I: IntoIt<T>>(&mut self, i: I) { unimplemented!() }
    #[verifier::external_body] fn vf_drain<R: DrainRange>(&mut self, r: R) -> (res: It<T>) { unimplemented!() }
    #[verifier::external_body] fn vf_into_iter(self) -> (r: It<T>) { unimplemented!() }
}
pub trait DrainRange { spec fn lo(&self) -> int; spec fn hi(&self, n: int) -> int; spec fn ok(&self, n: int) -> bool; }
impl DrainRange for core::ops::RangeFull {
    open spec fn lo(&self) -> int { 0 } open spec fn hi(&self, n: int) -> int { n } open spec fn ok(&self, n: int) -> bool { true }
}
impl DrainRange for core::ops::RangeFrom<usize> {
    open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self, n: int) -> int { n } open spec fn ok(&self, n: int) -> bool { self.start <= n }
}
impl DrainRange for core::ops::Range<usize> {
    open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self, n: int) -> int { self.end as int } open spec fn ok(&self, n: int) -> bool { self.start <= self.end <= n }
}

#[verifier::external_body]
pub fn vf_vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == rep_seq(x, n as nat) { unimplemented!() }
#[verifier::external_body]
pub fn vf_zip_eq_check<T>(n: usize, it: &It<T>) requires n == it@.len() { unimplemented!() }

// Panics: an assertion must be proved, a panic must be unreachable
pub fn vf_assert(c: bool) requires c { }
#[verifier::external_body]
pub fn vf_panic() -> ! requires false { unimplemented!() }

pub struct Once<T> { pub x: T }
#[verifier::external_body]
pub fn once<T>(x: T) -> (r: It<T>) ensures r@ == seq![x] { unimplemented!() }
pub struct Repeat<T> { pub x: T }
pub fn repeat<T>(x: T) -> (r: Repeat<T>) ensures r.x == x { Repeat { x } }
impl<T: Copy> Repeat<T> {
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == rep_seq(self.x, n as nat) { unimplemented!() }
}

// slices
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](a: Option<T>, d: U, f: F) -> (r: U)
    requires a matches Some(x) ==> call_requires(f, (x,))
    ensures match a { Some(x) => call_ensures(f, (x,), r), None => r == d };
pub assume_specification<T>[<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T: PartialEq>[<[T]>::contains](s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i].eq_spec(x);
pub assume_specification<T, P: FnOnce(&T) -> bool>[Option::<T>::filter](o: Option<T>, p: P) -> (r: Option<T>)
    requires o matches Some(x) ==> call_requires(p, (&x,))
    ensures match o {
        None => r is None,
        Some(x) => (r == Some(x) && call_ensures(p, (&x,), true)) || (r is None && call_ensures(p, (&x,), false)),
    };

// strings and formatting.  A string is the sequence of its characters; byte offsets follow the UTF-8 encoding
pub open spec fn char_len(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn byte_len(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { byte_len(s.drop_last()) + char_len(s.last()) } }
pub proof fn lemma_byte_len(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures 0 <= byte_len(s.take(k)) <= byte_len(s), byte_len(s) == byte_len(s.take(k)) + byte_len(s.skip(k)), byte_len(s) >= s.len(), k < s.len() ==> byte_len(s.take(k)) < byte_len(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_byte_len(s.drop_last(), if k < s.len() { k } else { 0 });
        if k < s.len() {
            assert(s.drop_last().take(k) =~= s.take(k));
            assert(s.skip(k).drop_last() =~= s.drop_last().skip(k));
            assert(s.skip(k).last() == s.last());
        } else { assert(s.take(k) =~= s); assert(s.skip(k) =~= Seq::empty()); }
    } else { assert(s.take(k) =~= s); assert(s.skip(k) =~= s); }
}
pub proof fn lemma_one_byte(s: Seq<char>)
    ensures s.len() == 0 ==> byte_len(s) == 0, s.len() == 1 ==> byte_len(s) == char_len(s[0]), s.len() > 1 ==> byte_len(s) > 1
{
    lemma_byte_len(s, 0);
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); }
}
pub open spec fn char_idx_seq(s: Seq<char>) -> Seq<(usize, char)> { Seq::new(s.len(), |i: int| (byte_len(s.take(i)) as usize, s[i])) }
/// The positions of `d` in `s`, in order
pub open spec fn cuts(s: Seq<char>, d: char) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last() == d { cuts(s.drop_last(), d).push(s.len() - 1) } else { cuts(s.drop_last(), d) } }
pub open spec fn piece_lo(s: Seq<char>, d: char, k: int) -> int { if k == 0 { 0 } else { cuts(s, d)[k - 1] + 1 } }
pub open spec fn piece_hi(s: Seq<char>, d: char, k: int) -> int { if k == cuts(s, d).len() { s.len() as int } else { cuts(s, d)[k] } }
pub open spec fn piece(s: Seq<char>, d: char, k: int) -> Seq<char> { s.subrange(piece_lo(s, d, k), piece_hi(s, d, k)) }
pub proof fn lemma_cuts(s: Seq<char>, d: char)
    ensures forall|k: int| 0 <= k < cuts(s, d).len() ==> 0 <= #[trigger] cuts(s, d)[k] < s.len() && s[cuts(s, d)[k]] == d,
        forall|k: int, l: int| 0 <= k < l < cuts(s, d).len() ==> cuts(s, d)[k] < cuts(s, d)[l],
        s.contains(d) <==> cuts(s, d).len() > 0,
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_cuts(t, d);
        if t.contains(d) { let i = choose|i: int| 0 <= i < t.len() && t[i] == d; assert(s[i] == d); }
        if s.last() == d { assert(s[s.len() - 1] == d); }
        if s.contains(d) && s.last() != d { let i = choose|i: int| 0 <= i < s.len() && s[i] == d; assert(t[i] == d); }
        assert forall|k: int| 0 <= k < cuts(s, d).len() implies 0 <= #[trigger] cuts(s, d)[k] < s.len() && s[cuts(s, d)[k]] == d by { if k < cuts(t, d).len() { assert(cuts(s, d)[k] == cuts(t, d)[k]); } }
    }
}
/// The pieces of text ended by newlines, and the rest when it is not empty
pub open spec fn line_count(s: Seq<char>) -> int { if s.len() == 0 || s.last() == '\n' { cuts(s, '\n').len() as int } else { cuts(s, '\n').len() as int + 1 } }
pub open spec fn line(s: Seq<char>, k: int) -> Seq<char> { let p = piece(s, '\n', k); if k < cuts(s, '\n').len() && p.len() > 0 && p.last() == '\r' { p.drop_last() } else { p } }
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> { Seq::new(line_count(s) as nat, |k: int| line(s, k)) }
pub trait VfStr { 
    spec fn cs(&self) -> Seq<char>;
    /// The address of the first byte
    spec fn addr(&self) -> int;
    fn vf_chars(&self) -> (r: It<char>) ensures r@ == self.cs();
    fn vf_char_indices(&self) -> (r: It<(usize, char)>) ensures r@ == char_idx_seq(self.cs()), byte_len(self.cs()) <= usize::MAX;
    fn vf_as_bytes(&self) -> (r: &[u8])
        ensures ascii(self.cs()) ==> r@.len() == self.cs().len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) as char == self.cs()[i];
    fn vf_contains_char(&self, c: char) -> (r: bool) ensures r == self.cs().contains(c);
    fn vf_str_len(&self) -> (r: usize) ensures r == byte_len(self.cs());
    fn vf_str_is_empty(&self) -> (r: bool) ensures r == (self.cs().len() == 0);
    fn vf_to_lowercase(&self) -> (r: String) ensures r@ == lowercase(self.cs());
    fn vf_as_ptr(&self) -> (r: usize) ensures r == self.addr(), r + byte_len(self.cs()) <= usize::MAX;
    fn vf_split(&self, d: char) -> (r: It<&SubStr>) ensures r@.len() == cuts(self.cs(), d).len() + 1,
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).text@ == piece(self.cs(), d, k) && r@[k].at@ == self.addr() + byte_len(self.cs().take(piece_lo(self.cs(), d, k)));
    fn vf_rsplit(&self, d: char) -> (r: It<&str>) ensures r@.len() == cuts(self.cs(), d).len() + 1, forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == piece(self.cs(), d, r@.len() - 1 - k);
    fn vf_lines(&self) -> (r: It<&str>) ensures r@.len() == line_count(self.cs()), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == line(self.cs(), k);
}
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
impl VfStr for str {
    open spec fn cs(&self) -> Seq<char> { self@ }
    uninterp spec fn addr(&self) -> int;
    #[verifier::external_body] fn vf_chars(&self) -> (r: It<char>) { unimplemented!() }
    #[verifier::external_body] fn vf_char_indices(&self) -> (r: It<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn vf_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vf_contains_char(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_str_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vf_str_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vf_as_ptr(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vf_split(&self, d: char) -> (r: It<&SubStr>) { unimplemented!() }
    #[verifier::external_body] fn vf_lines(&self) -> (r: It<&str>) { unimplemented!() }
    #[verifier::external_body] fn vf_rsplit(&self, d: char) -> (r: It<&str>) { unimplemented!() }
}
/// Part of a string, at an address inside it
pub struct SubStr { pub text: Ghost<Seq<char>>, pub at: Ghost<int> }
impl VfStr for SubStr {
    open spec fn cs(&self) -> Seq<char> { self.text@ }
    open spec fn addr(&self) -> int { self.at@ }
    #[verifier::external_body] fn vf_chars(&self) -> (r: It<char>) { unimplemented!() }
    #[verifier::external_body] fn vf_char_indices(&self) -> (r: It<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn vf_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vf_contains_char(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_str_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vf_str_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vf_as_ptr(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vf_split(&self, d: char) -> (r: It<&SubStr>) { unimplemented!() }
    #[verifier::external_body] fn vf_lines(&self) -> (r: It<&str>) { unimplemented!() }
    #[verifier::external_body] fn vf_rsplit(&self, d: char) -> (r: It<&str>) { unimplemented!() }
}
/// No slice of machine words is bigger than the address space
pub axiom fn axiom_slice_fits(s: &[usize]) ensures s@.len() <= isize::MAX / 8;
pub open spec fn usize_leq() -> spec_fn(usize, usize) -> bool { |a: usize, b: usize| a <= b }
pub trait VfSort { spec fn so(&self) -> Seq<usize>; fn vf_sort_unstable(&mut self) ensures final(self).so() == old(self).so().sort_by(usize_leq()); }
impl VfSort for Vec<usize> {
    open spec fn so(&self) -> Seq<usize> { self@ }
    #[verifier::external_body] fn vf_sort_unstable(&mut self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// Text output: a writer is the text written to it so far; `sound` writers never fail (`String`s, for example)
#[verifier::external_body]
pub struct Fmt { x: u8 }
impl Fmt { pub uninterp spec fn text(&self) -> Seq<char>; pub uninterp spec fn never_fails(&self) -> bool; }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FmtErr;
pub type FmtResult = Result<(), FmtErr>;
pub trait VfWrite {
    spec fn out(&self) -> Seq<char>;
    spec fn sound(&self) -> bool;
    fn vf_write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok, r is Ok ==> final(self).out() == old(self).out() + s@;
    fn vf_write_char(&mut self, c: char) -> (r: FmtResult)
        ensures final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok, r is Ok ==> final(self).out() == old(self).out().push(c);
}
impl VfWrite for Fmt {
    open spec fn out(&self) -> Seq<char> { self.text() }
    open spec fn sound(&self) -> bool { self.never_fails() }
    #[verifier::external_body] fn vf_write_str(&mut self, s: &str) -> (r: FmtResult) { unimplemented!() }
    #[verifier::external_body] fn vf_write_char(&mut self, c: char) -> (r: FmtResult) { unimplemented!() }
}
impl VfWrite for String {
    open spec fn out(&self) -> Seq<char> { self@ }
    open spec fn sound(&self) -> bool { true }
    #[verifier::external_body] fn vf_write_str(&mut self, s: &str) -> (r: FmtResult) { unimplemented!() }
    #[verifier::external_body] fn vf_write_char(&mut self, c: char) -> (r: FmtResult) { unimplemented!() }
}
/// What writing the text `t` to a writer does
pub open spec fn shows<W: VfWrite>(o: W, f: W, r: FmtResult, t: Seq<char>) -> bool {
    &&& f.sound() == o.sound()
    &&& o.sound() ==> r is Ok
    &&& r is Ok ==> f.out() == o.out() + t
}
/// What writing some unspecified text does
pub open spec fn quiet<W: VfWrite>(o: W, f: W, r: FmtResult) -> bool { f.sound() == o.sound() && (o.sound() ==> r is Ok) }
pub open spec fn shows_opt<W: VfWrite>(o: W, f: W, r: FmtResult, t: Option<Seq<char>>) -> bool { match t { Some(t) => shows(o, f, r, t), None => quiet(o, f, r) } }
/// Writing piece by piece is writing the concatenation
pub proof fn lemma_app() ensures forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] (a + (b + c)) == a + b + c, forall|a: Seq<char>| #[trigger] (a + Seq::<char>::empty()) == a
{
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] (a + (b + c)) == a + b + c by { assert(a + (b + c) =~= a + b + c); }
    assert forall|a: Seq<char>| #[trigger] (a + Seq::<char>::empty()) == a by { assert(a + Seq::<char>::empty() =~= a); }
}
/// Texts one after the other
pub open spec fn cat<T>(xs: Seq<T>, g: spec_fn(T) -> Seq<char>) -> Seq<char> decreases xs.len() { if xs.len() == 0 { Seq::empty() } else { cat(xs.drop_last(), g) + g(xs.last()) } }
/// Texts of one character each, which are read back one by one
pub proof fn lemma_cat_back<T>(xs: Seq<T>, g: spec_fn(T) -> Seq<char>, h: spec_fn(char) -> Option<T>)
    requires forall|i: int| 0 <= i < xs.len() ==> (#[trigger] g(xs[i])).len() == 1 && h(g(xs[i])[0]) == Some(xs[i])
    ensures opt_map(cat(xs, g), h) == xs, cat(xs, g).len() == xs.len(), forall|i: int| 0 <= i < xs.len() ==> #[trigger] cat(xs, g)[i] == g(xs[i])[0]
    decreases xs.len()
{
    if xs.len() > 0 {
        let d = xs.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] g(d[i])).len() == 1 && h(g(d[i])[0]) == Some(d[i]) by { assert(d[i] == xs[i]); }
        lemma_cat_back(d, g, h);
        assert(g(xs[xs.len() - 1]).len() == 1);
        assert(cat(xs, g) =~= cat(d, g).push(g(xs.last())[0]));
        assert(cat(xs, g).drop_last() =~= cat(d, g));
        assert(opt_map(cat(xs, g), h) =~= xs);
        assert forall|i: int| 0 <= i < xs.len() implies #[trigger] cat(xs, g)[i] == g(xs[i])[0] by { if i < d.len() { assert(d[i] == xs[i]); } }
    } else { assert(opt_map(cat(xs, g), h) =~= xs); }
}
/// A displayable type: `vf_fmt` is its `Display::fmt`
pub trait VfShow {
    spec fn show_ok(&self) -> bool;
    /// The text, where it is specified
    spec fn shown(&self) -> Option<Seq<char>>;
    fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) requires self.show_ok() ensures shows_opt(*old(f), *final(f), r, self.shown());
    #[verifier::external_body] fn vf_to_string(&self) -> (r: String) requires self.show_ok() ensures self.shown() matches Some(t) ==> r@ == t { unimplemented!() }
}
impl<T: VfShow + ?Sized> VfShow for &T {
    open spec fn show_ok(&self) -> bool { (**self).show_ok() }
    open spec fn shown(&self) -> Option<Seq<char>> { (**self).shown() }
    #[verifier::external_body] fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl VfShow for str {
    open spec fn show_ok(&self) -> bool { true }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(self@) }
    #[verifier::external_body] fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl VfShow for String {
    open spec fn show_ok(&self) -> bool { true }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(self@) }
    #[verifier::external_body] fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl VfShow for char {
    open spec fn show_ok(&self) -> bool { true }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(seq![*self]) }
    #[verifier::external_body] fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
/// Decimal digits
pub open spec fn dec(n: int) -> Seq<char> decreases n { if n < 10 { seq![((48 + n) as u8) as char] } else { dec(n / 10).push(((48 + n % 10) as u8) as char) } }
impl VfShow for usize {
    open spec fn show_ok(&self) -> bool { true }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(dec(*self as int)) }
    #[verifier::external_body] fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl VfShow for i64 {
    open spec fn show_ok(&self) -> bool { true }
    open spec fn shown(&self) -> Option<Seq<char>> { Some(if *self >= 0 { dec(*self as int) } else { seq!['-'] + dec(-(*self as int)) }) }
    #[verifier::external_body] fn vf_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_fmt_lit<W: VfWrite>(f: &mut W, s: &str) -> (r: FmtResult) ensures shows(*old(f), *final(f), r, s@) { unimplemented!() }
#[verifier::external_body]
pub fn vf_fmt_arg<T: VfShow + ?Sized, W: VfWrite>(x: &T, f: &mut W) -> (r: FmtResult) requires x.show_ok() ensures shows_opt(*old(f), *final(f), r, x.shown()) { unimplemented!() }
/// A type with a debug text, which is unspecified: `vf_dbg_fmt` is its `Debug::fmt`
pub trait VfDebug {
    spec fn dbg_ok(&self) -> bool;
    fn vf_dbg_fmt(&self, f: &mut Fmt) -> (r: FmtResult) requires self.dbg_ok() ensures quiet(*old(f), *final(f), r);
}
impl<T: VfDebug + ?Sized> VfDebug for &T {
    open spec fn dbg_ok(&self) -> bool { (**self).dbg_ok() }
    #[verifier::external_body] fn vf_dbg_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_fmt_dbg<T: VfDebug + ?Sized, W: VfWrite>(x: &T, f: &mut W) -> (r: FmtResult) requires x.dbg_ok() ensures quiet(*old(f), *final(f), r) { unimplemented!() }
#[verifier::external_body]
pub fn vf_str_push_dbg<T: VfDebug + ?Sized>(s: &mut String, x: &T) requires x.dbg_ok() { unimplemented!() }
/// `std::fmt::DebugTuple`
#[verifier::external_body]
pub struct DebugTuple { x: u8 }
impl DebugTuple {
    pub uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body] pub fn field<T: VfDebug + ?Sized>(&mut self, x: &T) requires x.dbg_ok() ensures final(self).sound() == old(self).sound() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&mut self) -> (r: FmtResult) ensures old(self).sound() ==> r is Ok { unimplemented!() }
}
impl Fmt {
    #[verifier::external_body] pub fn debug_tuple(&mut self, name: &str) -> (r: DebugTuple) ensures final(self).never_fails() == old(self).never_fails(), r.sound() == old(self).never_fails() { unimplemented!() }
}
pub fn vf_fmt_ok() -> (r: FmtResult) ensures r is Ok { Ok(()) }
pub fn vf_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vf_str_push_lit(s: &mut String, l: &str) ensures final(s)@ == old(s)@ + l@ { unimplemented!() }
#[verifier::external_body]
pub fn vf_str_push_arg<T: VfShow + ?Sized>(s: &mut String, x: &T) requires x.show_ok() ensures x.shown() matches Some(t) ==> final(s)@ == old(s)@ + t { unimplemented!() }
/// References into options and strings
pub trait VfOptRef<T> { fn vf_as_ref(&self) -> (r: Option<&T>); }
impl<T> VfOptRef<T> for Option<T> { fn vf_as_ref(&self) -> (r: Option<&T>) ensures r == (match *self { Some(x) => Some(&x), None => None::<&T> }) { match self { Some(x) => Some(x), None => None } } }
pub trait VfOptStr { fn vf_as_deref(&self) -> (r: Option<&str>); }
impl VfOptStr for Option<String> { fn vf_as_deref(&self) -> (r: Option<&str>) ensures match r { Some(s) => *self is Some && s@ == self->0@, None => *self is None } { match self { Some(x) => Some(x.as_str()), None => None } } }
pub trait VfString { fn vf_as_str(&self) -> (r: &str); fn vf_as_ref(&self) -> (r: &str); fn vf_str_is_empty(&self) -> (r: bool); }
impl VfString for String {
    fn vf_as_str(&self) -> (r: &str) ensures r@ == self@ { self.as_str() }
    fn vf_as_ref(&self) -> (r: &str) ensures r@ == self@ { self.as_str() }
    fn vf_str_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.is_empty() }
}
pub trait VfStrOwned { spec fn owned_text(&self) -> Seq<char>; fn vf_to_owned(&self) -> (r: String) ensures r@ == self.owned_text(); }
impl VfStrOwned for str { open spec fn owned_text(&self) -> Seq<char> { self@ } fn vf_to_owned(&self) -> (r: String) { self.to_owned() } }
impl VfStrOwned for String { open spec fn owned_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vf_to_owned(&self) -> (r: String) { self.clone() } }
/// Equality of texts
pub trait VfText { spec fn txt(&self) -> Option<Seq<char>>; }
impl VfText for str { open spec fn txt(&self) -> Option<Seq<char>> { Some(self@) } }
impl VfText for String { open spec fn txt(&self) -> Option<Seq<char>> { Some(self@) } }
impl<T: VfText + ?Sized> VfText for &T { open spec fn txt(&self) -> Option<Seq<char>> { (**self).txt() } }
impl<T: VfText> VfText for Option<T> { open spec fn txt(&self) -> Option<Seq<char>> { match self { Some(x) => x.txt(), None => None } } }
#[verifier::external_body]
pub fn vf_text_eq<A: VfText + ?Sized, B: VfText + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.txt() == b.txt()) { unimplemented!() }
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == byte_len(s@);

// machine integers
global size_of usize == 8;
/// n! as a number
pub open spec fn fact(n: int) -> int decreases n { if n <= 0 { 1 } else { n * fact(n - 1) } }
pub trait VfFactorial { spec fn fval(&self) -> int; fn vf_checked_factorial(&self) -> (r: Option<usize>) ensures match r { Some(v) => v == fact(self.fval()), None => fact(self.fval()) > usize::MAX }; }
impl VfFactorial for usize {
    open spec fn fval(&self) -> int { *self as int }
    #[verifier::external_body] fn vf_checked_factorial(&self) -> (r: Option<usize>) { unimplemented!() }
}
pub trait VfAbs { spec fn val(&self) -> int; fn vf_abs(self) -> (r: Self) where Self: Sized requires self.val() > isize::MIN ensures r.val() == (if self.val() < 0 { -self.val() } else { self.val() }); }
impl VfAbs for isize {
    open spec fn val(&self) -> int { *self as int }
    #[verifier::external_body] fn vf_abs(self) -> (r: isize) { unimplemented!() }
}
pub assume_specification [isize::unsigned_abs] (x: isize) -> (r: usize) ensures r == (if x < 0 { -x } else { x as int });

// Hash sets, viewed as the set of the views of their elements (element types hash and compare by their view)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T: View> { x: Vec<T> }
impl<T: View> View for HashSet<T> { type V = Set<T::V>; uninterp spec fn view(&self) -> Set<T::V>; }
impl<T: View> HashSet<T> {
    /// The (unspecified) order of iteration
    pub uninterp spec fn order(&self) -> Seq<&T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x@), r == !old(self)@.contains(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: View<V = T::V> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.contains(q@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_extend<I: IntoIt<T>>(&mut self, i: I) ensures final(self)@ == old(self)@.union(view_seq(i.it_seq()).to_set()),
            forall|x: T| #[trigger] i.it_seq().contains(x) ==> final(self)@.contains(x@), forall|v: T::V| #[trigger] final(self)@.contains(v) ==> old(self)@.contains(v) || exists|j: int| 0 <= j < i.it_seq().len() && (#[trigger] i.it_seq()[j])@ == v { unimplemented!() }
}
impl<T: View> IntoIt<T> for HashSet<T> {
    open spec fn it_seq(&self) -> Seq<T> { deref_seq(self.order()) }
    #[verifier::external_body] fn vf_it(self) -> It<T> { unimplemented!() }
}
pub broadcast axiom fn axiom_set_order<T: View>(s: &HashSet<T>)
    ensures (#[trigger] s.order()).len() == s@.len(),
        forall|i: int| 0 <= i < s.order().len() ==> s@.contains((#[trigger] s.order()[i])@),
        forall|x: T::V| #[trigger] s@.contains(x) ==> exists|i: int| 0 <= i < s.order().len() && (#[trigger] s.order()[i])@ == x;
pub broadcast axiom fn axiom_set_finite<T: View>(s: &HashSet<T>) ensures #[trigger] s@.finite();
pub open spec fn view_seq<T: View>(s: Seq<T>) -> Seq<T::V> { Seq::new(s.len(), |i: int| s[i]@) }
impl<T: View> FromIt<T> for HashSet<T> { open spec fn from_it(&self, s: Seq<T>) -> bool { self@ == view_seq(s).to_set() } }
impl<'a, T: View> IntoIt<&'a T> for &'a HashSet<T> {
    open spec fn it_seq(&self) -> Seq<&'a T> { self.order() }
    #[verifier::external_body] fn vf_it(self) -> It<&'a T> { unimplemented!() }
}

pub open spec fn total(s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() } }
impl It<usize> {
    #[verifier::external_body]
    pub fn sum<S>(self) -> (r: usize) requires total(self@) <= usize::MAX ensures r == total(self@) { unimplemented!() }
}
/// What maps hold fits into memory
pub axiom fn axiom_maps_fit<K: View, L: View, V>(m: &HashMap<K, HashMap<L, V>>)
    ensures forall|s: Seq<usize>| s.len() == m.order().len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == m.order()[i].1.order().len()) ==> #[trigger] total(s) <= usize::MAX;
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == rev_seq(old(s)@);
/// The number of characters to insert, remove or replace to get from one text to the other
pub uninterp spec fn distance(a: Seq<char>, b: Seq<char>) -> int;
#[verifier::external_body]
pub fn edit_distance(a: &str, b: &str) -> (r: usize) ensures r == distance(a@, b@) { unimplemented!() }
/// The order that a type's `Ord` goes by
pub trait VfRank { spec fn rank(&self) -> int; }
/// `r` is the `n` elements of `all` that rank highest, from the lowest; `p` lists the elements of `all` by index, those of `r` first
pub open spec fn highest<T: VfRank>(r: Seq<T>, all: Seq<T>, n: int, p: Seq<int>) -> bool {
    &&& p.len() == all.len() && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < all.len()) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j])
    &&& r.len() == (if n < all.len() { n } else { all.len() as int }) && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == all[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).rank() <= (#[trigger] r[j]).rank()
    &&& forall|i: int, j: int| 0 <= i < r.len() <= j < p.len() ==> all[#[trigger] p[j]].rank() <= (#[trigger] r[i]).rank()
}
/// The `shortlist` crate: keeps the highest elements of those added
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Shortlist<T> { x: Vec<T> }
impl<T: VfRank> Shortlist<T> {
    pub uninterp spec fn room(&self) -> int;
    pub uninterp spec fn added(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new(capacity: usize) -> (r: Self) requires capacity > 0 ensures r.room() == capacity, r.added() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn append<I: IntoIt<T>>(&mut self, i: I) ensures final(self).room() == old(self).room(), final(self).added() == old(self).added() + i.it_seq() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self).room() == old(self).room(), final(self).added() == old(self).added().push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_sorted_vec(self) -> (r: Vec<T>) ensures exists|p: Seq<int>| #[trigger] highest(r@, self.added(), self.room(), p) { unimplemented!() }
}
pub assume_specification [core::cmp::Ordering::reverse] (o: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less });
pub open spec fn compare(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
/// A hash map: the values kept at the views of its keys
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K: View, V> { x: Vec<(K, V)> }
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View, V> HashMap<K, V> {
    /// The (unspecified) order of iteration
    pub uninterp spec fn order(&self) -> Seq<(&K, &V)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k@) && self@[k@] == *v, None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_values(&self) -> (r: It<&V>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.order()[i].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_into_iter(self) -> (r: It<(K, V)>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (*self.order()[i].0, *self.order()[i].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_iter(&self) -> (r: It<(&K, &V)>) ensures r@ == self.order() { unimplemented!() }
    /// `entry(k).or_insert_with(f)`
    #[verifier::external_body]
    pub fn vf_entry_or_insert_with<F: FnOnce() -> V>(&mut self, k: K, f: F) -> (r: &mut V)
        requires call_requires(f, ())
        ensures final(self)@ == old(self)@.insert(k@, *final(r)), if old(self)@.contains_key(k@) { *r == old(self)@[k@] } else { call_ensures(f, (), *r) } { unimplemented!() }
    /// `entry(k).or_insert(v)`
    #[verifier::external_body]
    pub fn vf_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures final(self)@ == old(self)@.insert(k@, *final(r)), *r == (if old(self)@.contains_key(k@) { old(self)@[k@] } else { v }) { unimplemented!() }
    /// `entry(k).or_default()`
    #[verifier::external_body]
    pub fn vf_entry_or_default(&mut self, k: K) -> (r: &mut V) where V: Default
        requires call_requires(V::default, ())
        ensures final(self)@ == old(self)@.insert(k@, *final(r)), if old(self)@.contains_key(k@) { *r == old(self)@[k@] } else { call_ensures(V::default, (), *r) } { unimplemented!() }
}
impl<K: View, V> Default for HashMap<K, V> { fn default() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { Self::new() } }
impl<K: View, V> IntoIt<(K, V)> for HashMap<K, V> {
    open spec fn it_seq(&self) -> Seq<(K, V)> { Seq::new(self.order().len(), |i: int| (*self.order()[i].0, *self.order()[i].1)) }
    #[verifier::external_body] fn vf_it(self) -> It<(K, V)> { unimplemented!() }
}
impl<'a, K: View, V> IntoIt<(&'a K, &'a V)> for &'a HashMap<K, V> {
    open spec fn it_seq(&self) -> Seq<(&'a K, &'a V)> { self.order() }
    #[verifier::external_body] fn vf_it(self) -> It<(&'a K, &'a V)> { unimplemented!() }
}
/// The iteration goes once over each key
pub broadcast axiom fn axiom_map_order<K: View, V>(m: &HashMap<K, V>)
    ensures forall|i: int| 0 <= i < (#[trigger] m.order()).len() ==> m@.contains_key((#[trigger] m.order()[i]).0@) && m@[m.order()[i].0@] == *m.order()[i].1,
        forall|i: int, j: int| 0 <= i < j < m.order().len() ==> (#[trigger] m.order()[i]).0@ != (#[trigger] m.order()[j]).0@,
        forall|k: K::V| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < m.order().len() && (#[trigger] m.order()[i]).0@ == k;

// Ranges
pub use std::ops::{Bound, Range};
pub trait VfRange: Sized {
    spec fn sb(&self) -> Bound<usize>;
    spec fn eb(&self) -> Bound<usize>;
    fn start_bound(&self) -> (r: Bound<&usize>) ensures same_bound(r, self.sb());
    fn end_bound(&self) -> (r: Bound<&usize>) ensures same_bound(r, self.eb());
}
pub open spec fn same_bound(a: Bound<&usize>, b: Bound<usize>) -> bool { match a { Bound::Included(v) => b == Bound::Included(*v), Bound::Excluded(v) => b == Bound::Excluded(*v), Bound::Unbounded => b == Bound::<usize>::Unbounded } }
pub open spec fn range_lo<R: VfRange>(r: R) -> int { match r.sb() { Bound::Included(v) => v as int, Bound::Excluded(v) => v + 1, Bound::Unbounded => 0 } }
pub open spec fn range_hi<R: VfRange>(r: R, n: int) -> int { match r.eb() { Bound::Included(v) => v + 1, Bound::Excluded(v) => v as int, Bound::Unbounded => n } }
impl VfRange for Range<usize> {
    open spec fn sb(&self) -> Bound<usize> { Bound::Included(self.start) }
    open spec fn eb(&self) -> Bound<usize> { Bound::Excluded(self.end) }
    #[verifier::external_body] fn start_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
    #[verifier::external_body] fn end_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
}
impl VfRange for core::ops::RangeFull {
    open spec fn sb(&self) -> Bound<usize> { Bound::Unbounded }
    open spec fn eb(&self) -> Bound<usize> { Bound::Unbounded }
    #[verifier::external_body] fn start_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
    #[verifier::external_body] fn end_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
}
// ---- serde: the values handed to visitors, and the traits as bellframe uses them
pub enum Data { Int(int), Char(char), Text(Seq<char>), Other }
pub trait DeError: Sized { fn custom<T: VfShow>(t: T) -> (r: Self) requires t.show_ok(); }
/// The result is `x`, or some error if there is none
pub open spec fn read_as<T, E>(x: Option<T>, r: Result<T, E>) -> bool { match x { Some(v) => r == Ok::<T, E>(v), None => r is Err } }
pub trait Visitor: Sized {
    type Value;
    /// What the visitor makes of a value
    spec fn reads(&self, d: Data) -> Option<Self::Value>;
    fn visit_i8<E: DeError>(self, v: i8) -> (r: Result<Self::Value, E>) ensures read_as(self.reads(Data::Int(v as int)), r);
    fn visit_u8<E: DeError>(self, v: u8) -> (r: Result<Self::Value, E>) ensures read_as(self.reads(Data::Int(v as int)), r);
    fn visit_i16<E: DeError>(self, v: i16) -> (r: Result<Self::Value, E>) ensures read_as(self.reads(Data::Int(v as int)), r);
    fn visit_u16<E: DeError>(self, v: u16) -> (r: Result<Self::Value, E>) ensures read_as(self.reads(Data::Int(v as int)), r);
    fn visit_i32<E: DeError>(self, v: i32) -> (r: Result<Self::Value, E>) ensures read_as(self.reads(Data::Int(v as int)), r);
    fn visit_u32<E: DeError>(self, v: u32) -> (r: Result<Self::Value, E>) ensures read_as(self.reads(Data::Int(v as int)), r);
    fn visit_i64<E: DeError>(self, v: i64) -> (r: Result<Self::Value, E>) ensures read_as(self.reads(Data::Int(v as int)), r);
    fn visit_u64<E: DeError>(self, v: u64) -> (r: Result<Self::Value, E>) ensures read_as(self.reads(Data::Int(v as int)), r);
    fn visit_char<E: DeError>(self, v: char) -> (r: Result<Self::Value, E>) ensures read_as(self.reads(Data::Char(v)), r);
    fn visit_str<E: DeError>(self, v: &str) -> (r: Result<Self::Value, E>) ensures read_as(self.reads(Data::Text(v@)), r);
}
pub trait Deserializer<'de>: Sized {
    type Error: DeError;
    /// The value held
    spec fn data(&self) -> Data;
    fn deserialize_u64<V: Visitor>(self, v: V) -> (r: Result<V::Value, Self::Error>) ensures read_as(v.reads(self.data()), r);
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    /// The result of writing a value
    spec fn wrote(&self, d: Data, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_u64(self, v: u64) -> (r: Result<Self::Ok, Self::Error>) ensures self.wrote(Data::Int(v as int), r);
}
/// The lower-case form of a string, specified for ASCII
pub uninterp spec fn lowercase(s: Seq<char>) -> Seq<char>;
/// Lower case stays as it is (the harness checks every character)
pub axiom fn axiom_lowercase_twice(s: Seq<char>) ensures lowercase(lowercase(s)) == lowercase(s);
pub open spec fn lower_char(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
#[verifier::external_body]
pub proof fn lemma_lowercase(s: Seq<char>)
    requires ascii(s)
    ensures lowercase(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] lowercase(s)[i] == lower_char(s[i])
{ }
impl VfRange for core::ops::RangeFrom<usize> {
    open spec fn sb(&self) -> Bound<usize> { Bound::Included(self.start) }
    open spec fn eb(&self) -> Bound<usize> { Bound::Unbounded }
    #[verifier::external_body] fn start_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
    #[verifier::external_body] fn end_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
}
impl VfRange for core::ops::RangeTo<usize> {
    open spec fn sb(&self) -> Bound<usize> { Bound::Unbounded }
    open spec fn eb(&self) -> Bound<usize> { Bound::Excluded(self.end) }
    #[verifier::external_body] fn start_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
    #[verifier::external_body] fn end_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
}
impl VfRange for core::ops::RangeToInclusive<usize> {
    open spec fn sb(&self) -> Bound<usize> { Bound::Unbounded }
    open spec fn eb(&self) -> Bound<usize> { Bound::Included(self.end) }
    #[verifier::external_body] fn start_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
    #[verifier::external_body] fn end_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
}
pub assume_specification<Idx: Clone>[<Range<Idx> as Clone>::clone](s: &Range<Idx>) -> (r: Range<Idx>)
    ensures cloned(s.start, r.start), cloned(s.end, r.end);

/// What serde reads for a field which is not there: `Default::default()`, and `None` for an option
pub trait VfMissing { spec fn missing(&self) -> bool; }
impl VfMissing for bool { open spec fn missing(&self) -> bool { !*self } }
impl VfMissing for usize { open spec fn missing(&self) -> bool { *self == 0 } }
impl VfMissing for u8 { open spec fn missing(&self) -> bool { *self == 0 } }
impl<T> VfMissing for Option<T> { open spec fn missing(&self) -> bool { *self is None } }
impl VfMissing for String { open spec fn missing(&self) -> bool { self@.len() == 0 } }
impl<T> VfMissing for Vec<T> { open spec fn missing(&self) -> bool { self@.len() == 0 } }
