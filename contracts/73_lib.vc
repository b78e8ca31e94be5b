@feature method_lib_serde
@fn method_lib::lib_serde::to_class_id
    ensures res == class_id(class)
@fn method_lib::lib_serde::from_class_id
    requires v <= 8
    ensures res is Some, class_id(res->Some_0) == v
@mod method_lib::lib_serde
/// The number written for a class
pub open spec fn class_id(c: Class) -> int {
    match c { Class::Principle => 0, Class::Place => 1, Class::Bob => 2, Class::TrebleBob => 3, Class::Delight => 4, Class::Surprise => 5, Class::TreblePlace => 6, Class::Alliance => 7, Class::Hybrid => 8 }
}

@dropuse std::collections::HashMap
@mod stage
impl View for Stage { type V = Stage; open spec fn view(&self) -> Stage { *self } }
@mod method::class
impl View for FullClass { type V = FullClass; open spec fn view(&self) -> FullClass { *self } }
@mod method_lib::lib_serde
use crate::sp::*;
use crate::vf::*;
use crate::method::title_text;
/// One method as a library keeps it
pub ghost struct Entry { pub title: Seq<char>, pub name: Seq<char>, pub class: FullClass, pub pn: Seq<char> }
pub open spec fn entry_of(c: CompactMethod) -> Entry { Entry { title: c.title@, name: c.name@, class: c.full_class, pn: c.place_notation@ } }
pub open spec fn group_class(g: MethodGroup) -> FullClass { FullClass { is_jump: g.is_jump, is_little: g.is_little, is_differential: g.is_differential, class: class_of(g.class_id as int) } }
/// The method that a record of a group of this stage and class stands for
pub open spec fn sent(stage: Stage, class: FullClass, m: CompactMethodSerde) -> Entry {
    Entry { title: match m.title { Some(t) => t@, None => title_text(m.name@, class, stage) }, name: m.name@, class, pn: m.place_notation@ }
}
/// The method a group says
pub open spec fn said(g: MethodGroup, m: CompactMethodSerde) -> Entry { sent(Stage(g.stage), group_class(g), m) }
pub open spec fn group_ok(g: MethodGroup) -> bool { 1 <= g.stage <= 22 && g.class_id <= 8 }
pub open spec fn finds(m: Map<Stage, HashMap<String, CompactMethod>>, s: Stage, t: Seq<char>) -> Option<Entry> {
    if m.contains_key(s) && m[s]@.contains_key(t) { Some(entry_of(m[s]@[t])) } else { None }
}
pub open spec fn says(gs: Seq<MethodGroup>, i: int, j: int, s: Stage, e: Entry) -> bool { 0 <= i < gs.len() && 0 <= j < gs[i].methods@.len() && gs[i].stage == s.0 && said(gs[i], gs[i].methods@[j]) == e }
/// Method `j` of group `i` comes before method `b` of group `a`
pub open spec fn earlier(i: int, j: int, a: int, b: int) -> bool { i < a || i == a && j < b }
/// What is found has been said so far, at its title in lower case; and every title said so far is found
pub open spec fn read_to(m: Map<Stage, HashMap<String, CompactMethod>>, gs: Seq<MethodGroup>, a: int, b: int) -> bool {
    &&& forall|s: Stage, t: Seq<char>| (#[trigger] finds(m, s, t)) is Some ==> t == lowercase(finds(m, s, t)->0.title) && exists|i: int, j: int| earlier(i, j, a, b) && #[trigger] says(gs, i, j, s, finds(m, s, t)->0)
    &&& forall|i: int, j: int, s: Stage, e: Entry| #[trigger] says(gs, i, j, s, e) && earlier(i, j, a, b) ==> finds(m, s, lowercase(e.title)) is Some
}
pub open spec fn class_of(v: int) -> Class {
    if v == 0 { Class::Principle } else if v == 1 { Class::Place } else if v == 2 { Class::Bob } else if v == 3 { Class::TrebleBob } else if v == 4 { Class::Delight }
    else if v == 5 { Class::Surprise } else if v == 6 { Class::TreblePlace } else if v == 7 { Class::Alliance } else { Class::Hybrid } }
@fn method_lib::lib_serde::<MethodLib as From<MethodLibSerde>>::from => from_said
    requires forall|i: int| 0 <= i < m.groups@.len() ==> group_ok(#[trigger] m.groups@[i])
    ensures read_to(res.method_map@, m.groups@, m.groups@.len() as int, 0)
@closure 0 || -> (r: String) ensures r@ == title_text(name@, full_class, stage)
@loop 0
    invariant xs_0 == gs, xs_0 == m0.groups@, forall|i: int| 0 <= i < gs.len() ==> group_ok(#[trigger] gs[i]), read_to(unpacked_method_map@, gs, k_0 as int, 0)
@loop 1
    invariant xs_0 == gs, 0 < k_0 <= gs.len(), gs[k_0 - 1].methods@ == xs_1, stage.0 == gs[k_0 - 1].stage, full_class == group_class(gs[k_0 - 1]), group_ok(gs[k_0 - 1]),
        read_to(um0.insert(stage, *method_map), gs, k_0 - 1, k_1), *final(method_map) == fin
@hint start
    let ghost gs = m.groups@; let ghost m0 = m;
    proof { lemma_start(gs); }
@hint before let method_map
    let ghost um0 = unpacked_method_map@;
    proof { lemma_ids(group.class_id as int); }
@hint loop 1 before
    let ghost fin = *final(method_map);
    proof { lemma_entry(um0, gs, k_0 - 1, stage, *method_map); }
@hint loop 1 start
    let ghost mm0 = *method_map;
@hint loop 1 end
    proof {
        let um = um0.insert(stage, mm0);
        let ts = gs[k_0 - 1].methods@[k_1 - 1];
        let c = method_map@[lowercase(said(gs[k_0 - 1], ts).title)];
        assert(says(gs, k_0 - 1, k_1 - 1, stage, said(gs[k_0 - 1], ts)));
        lemma_put(um, gs, k_0 - 1, k_1 - 1, stage, *method_map, lowercase(said(gs[k_0 - 1], ts).title), c);
        assert(um.insert(stage, *method_map) =~= um0.insert(stage, *method_map));
    }
@hint loop 1 after
    proof { lemma_group(um0.insert(stage, *method_map), gs, k_0 - 1); }
@mod method_lib::lib_serde
pub proof fn lemma_start(gs: Seq<MethodGroup>)
    ensures read_to(Map::empty(), gs, 0, 0)
{}
pub proof fn lemma_ids(v: int)
    ensures forall|c: Class| class_of(#[trigger] class_id(c)) == c
{}
pub proof fn lemma_entry(m: Map<Stage, HashMap<String, CompactMethod>>, gs: Seq<MethodGroup>, a: int, s: Stage, h: HashMap<String, CompactMethod>)
    requires read_to(m, gs, a, 0), if m.contains_key(s) { h == m[s] } else { h@ == Map::<Seq<char>, CompactMethod>::empty() }
    ensures read_to(m.insert(s, h), gs, a, 0)
{
    let m2 = m.insert(s, h);
    assert forall|q: Stage, t: Seq<char>| #[trigger] finds(m2, q, t) == finds(m, q, t) by {}
}
pub proof fn lemma_put(m: Map<Stage, HashMap<String, CompactMethod>>, gs: Seq<MethodGroup>, a: int, b: int, s: Stage, h: HashMap<String, CompactMethod>, t: Seq<char>, c: CompactMethod)
    requires read_to(m, gs, a, b), m.contains_key(s), h@ == m[s]@.insert(t, c), t == lowercase(c.title@), says(gs, a, b, s, entry_of(c))
    ensures read_to(m.insert(s, h), gs, a, b + 1)
{
    let m2 = m.insert(s, h);
    assert forall|q: Stage, u: Seq<char>| (#[trigger] finds(m2, q, u)) is Some implies u == lowercase(finds(m2, q, u)->0.title) && exists|i: int, j: int| earlier(i, j, a, b + 1) && #[trigger] says(gs, i, j, q, finds(m2, q, u)->0) by {
        if q == s && u == t { assert(finds(m2, q, u) == Some(entry_of(c))); assert(earlier(a, b, a, b + 1)); } else {
            assert(finds(m2, q, u) == finds(m, q, u));
            let (i, j) = choose|i: int, j: int| earlier(i, j, a, b) && #[trigger] says(gs, i, j, q, finds(m, q, u)->0);
            assert(earlier(i, j, a, b + 1));
        }
    }
    assert forall|i: int, j: int, q: Stage, e: Entry| #[trigger] says(gs, i, j, q, e) && earlier(i, j, a, b + 1) implies finds(m2, q, lowercase(e.title)) is Some by {
        if earlier(i, j, a, b) { assert(finds(m, q, lowercase(e.title)) is Some); } else { assert(e == entry_of(c)); }
    }
}
pub proof fn lemma_group(m: Map<Stage, HashMap<String, CompactMethod>>, gs: Seq<MethodGroup>, a: int)
    requires 0 <= a < gs.len(), read_to(m, gs, a, gs[a].methods@.len() as int)
    ensures read_to(m, gs, a + 1, 0)
{
    let b = gs[a].methods@.len() as int;
    assert forall|q: Stage, u: Seq<char>| (#[trigger] finds(m, q, u)) is Some implies u == lowercase(finds(m, q, u)->0.title) && exists|i: int, j: int| earlier(i, j, a + 1, 0) && #[trigger] says(gs, i, j, q, finds(m, q, u)->0) by {
        let (i, j) = choose|i: int, j: int| earlier(i, j, a, b) && #[trigger] says(gs, i, j, q, finds(m, q, u)->0);
        assert(earlier(i, j, a + 1, 0));
    }
    assert forall|i: int, j: int, q: Stage, e: Entry| #[trigger] says(gs, i, j, q, e) && earlier(i, j, a + 1, 0) implies finds(m, q, lowercase(e.title)) is Some by {
        assert(earlier(i, j, a, b));
    }
}
@mod method_lib::lib_serde
broadcast use crate::vf::axiom_map_order;
pub open spec fn keeps(m: Map<Stage, HashMap<String, CompactMethod>>, s: Stage, c: CompactMethod) -> bool { exists|t: Seq<char>| m.contains_key(s) && m[s]@.contains_key(t) && #[trigger] m[s]@[t] == c }
/// Every stored method is on a stage with a name, under its title in lower case
pub open spec fn lib_ok(m: Map<Stage, HashMap<String, CompactMethod>>) -> bool {
    &&& forall|s: Stage| #[trigger] m.contains_key(s) && m[s]@ != Map::<Seq<char>, CompactMethod>::empty() ==> 1 <= s.0 <= 22
    &&& forall|s: Stage, t: Seq<char>| (#[trigger] finds(m, s, t)) is Some ==> t == lowercase(finds(m, s, t)->0.title)
}
pub open spec fn in_class(g: Map<(Stage, FullClass), Vec<&CompactMethod>>, s: Stage, c: CompactMethod) -> bool {
    g.contains_key((s, c.full_class)) && exists|i: int| 0 <= i < g[(s, c.full_class)]@.len() && *(#[trigger] g[(s, c.full_class)]@[i]) == c
}
/// Only stored methods of its stage and class are in a group
pub open spec fn sorted_out(g: Map<(Stage, FullClass), Vec<&CompactMethod>>, m: Map<Stage, HashMap<String, CompactMethod>>) -> bool {
    &&& forall|k: (Stage, FullClass)| #[trigger] g.contains_key(k) ==> g[k]@.len() > 0
    &&& forall|k: (Stage, FullClass), i: int| g.contains_key(k) && 0 <= i < g[k]@.len() ==> keeps(m, k.0, *(#[trigger] g[k]@[i])) && g[k]@[i].full_class == k.1 && 1 <= k.0.0 <= 22
}
pub open spec fn group_fits(k: (Stage, FullClass), v: Vec<&CompactMethod>) -> bool { 1 <= k.0.0 <= 22 && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).full_class == k.1 }
/// Every stored method is written, and nothing else is
pub open spec fn written(gs: Seq<MethodGroup>, m: Map<Stage, HashMap<String, CompactMethod>>) -> bool {
    &&& forall|i: int, j: int, s: Stage, e: Entry| #[trigger] says(gs, i, j, s, e) ==> exists|t: Seq<char>| #[trigger] finds(m, s, t) == Some(e)
    &&& forall|s: Stage, t: Seq<char>| (#[trigger] finds(m, s, t)) is Some ==> exists|i: int, j: int| #[trigger] says(gs, i, j, s, finds(m, s, t)->0)
}
@fn method_lib::lib_serde::<MethodLibSerde as From<&MethodLib>>::from => to_said
    requires lib_ok(lib.method_map@)
    ensures written(res.groups@, lib.method_map@), forall|i: int| 0 <= i < res.groups@.len() ==> group_ok(#[trigger] res.groups@[i])
@opt text_eq
@closure 0 |p: ((Stage, FullClass), Vec<&CompactMethod>)| -> (r: MethodGroup)
    requires group_fits(p.0, p.1)
    ensures Stage(r.stage) == p.0.0, group_class(r) == p.0.1, r.class_id <= 8, r.methods@.len() == p.1@.len(),
        forall|i: int| 0 <= i < r.methods@.len() ==> sent(p.0.0, p.0.1, #[trigger] r.methods@[i]) == entry_of(*p.1@[i])
@closure 1 |comp_method: &CompactMethod| -> (r: CompactMethodSerde)
    requires 1 <= stage.0 <= 22, comp_method.full_class == full_class
    ensures sent(stage, full_class, r) == entry_of(*comp_method)
@loop 0
    invariant xs_0 == lib.method_map.order(), lib_ok(lib.method_map@), sorted_out(groups@, lib.method_map@),
        forall|i: int, t: Seq<char>| 0 <= i < k_0 && #[trigger] xs_0[i].1@.contains_key(t) ==> in_class(groups@, *xs_0[i].0, xs_0[i].1@[t])
@loop 1
    invariant xs_0 == lib.method_map.order(), 0 < k_0 <= xs_0.len(), stage == xs_0[k_0 - 1].0, methods == xs_0[k_0 - 1].1, lib_ok(lib.method_map@), sorted_out(groups@, lib.method_map@),
        xs_1.len() == methods.order().len(), forall|i: int| 0 <= i < xs_1.len() ==> #[trigger] xs_1[i] == methods.order()[i].1,
        forall|i: int, t: Seq<char>| 0 <= i < k_0 - 1 && #[trigger] xs_0[i].1@.contains_key(t) ==> in_class(groups@, *xs_0[i].0, xs_0[i].1@[t]),
        forall|i: int| 0 <= i < k_1 ==> in_class(groups@, *stage, *(#[trigger] xs_1[i]))
@hint start
    let ghost mut g: Map<(Stage, FullClass), Vec<&CompactMethod>> = Map::empty(); let ghost mut o: Seq<(&(Stage, FullClass), &Vec<&CompactMethod>)> = Seq::empty();
@hint loop 0 after
    proof {
        g = groups@; o = groups.order();
        assert forall|i: int| 0 <= i < o.len() implies g.contains_key(*(#[trigger] o[i]).0) && g[*o[i].0] == *o[i].1 && group_fits(*o[i].0, *o[i].1) by {
            assert(o[i].0@ == *o[i].0);
            let k = *o[i].0;
            assert forall|j: int| 0 <= j < o[i].1@.len() implies (#[trigger] o[i].1@[j]).full_class == k.1 by { assert(g[k]@[j] == o[i].1@[j]); }
            assert(g[k]@[0].full_class == k.1);
        }
        assert forall|s: Stage, t: Seq<char>| (#[trigger] finds(lib.method_map@, s, t)) is Some implies in_class(g, s, lib.method_map@[s]@[t]) by {
            let i = choose|i: int| 0 <= i < xs_0.len() && (#[trigger] xs_0[i]).0@ == s;
            assert(xs_0[i].1@.contains_key(t));
        }
    }
@hint loop 1 start
    let ghost g0 = groups@;
@hint loop 1 end
    proof { lemma_pushed(g0, groups@, (*stage, method.full_class), method); assert(finds(lib.method_map@, *stage, methods.order()[k_1 - 1].0@) is Some); }
@hint loop 1 after
    proof {
        assert forall|t: Seq<char>| #[trigger] methods@.contains_key(t) implies in_class(groups@, *stage, methods@[t]) by {
            let i = choose|i: int| 0 <= i < methods.order().len() && (#[trigger] methods.order()[i]).0@ == t;
            assert(in_class(groups@, *stage, *xs_1[i]));
        }
    }
@hint end
    proof {
        let (gs, m) = (res.groups@, lib.method_map@);
        assert(gs.len() == o.len());
        assert forall|i: int| 0 <= i < gs.len() implies Stage(#[trigger] gs[i].stage) == o[i].0.0 && group_class(gs[i]) == o[i].0.1 && gs[i].methods@.len() == o[i].1@.len() && group_ok(gs[i]) by { assert(crate::vf::ix(i)); }
        assert forall|i: int, j: int, s: Stage, e: Entry| #[trigger] says(gs, i, j, s, e) implies exists|t: Seq<char>| #[trigger] finds(m, s, t) == Some(e) by {
            assert(keeps(m, s, *g[*o[i].0]@[j]));
            let t = choose|t: Seq<char>| m.contains_key(s) && m[s]@.contains_key(t) && #[trigger] m[s]@[t] == *g[*o[i].0]@[j];
            assert(finds(m, s, t) == Some(e));
        }
        assert forall|s: Stage, t: Seq<char>| (#[trigger] finds(m, s, t)) is Some implies exists|i: int, j: int| #[trigger] says(gs, i, j, s, finds(m, s, t)->0) by {
            let c = m[s]@[t];
            let j = choose|j: int| 0 <= j < g[(s, c.full_class)]@.len() && *(#[trigger] g[(s, c.full_class)]@[j]) == c;
            let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0@ == (s, c.full_class);
            assert(says(gs, i, j, s, entry_of(c)));
        }
    }
@mod method_lib::lib_serde
pub proof fn lemma_pushed(g0: Map<(Stage, FullClass), Vec<&CompactMethod>>, g: Map<(Stage, FullClass), Vec<&CompactMethod>>, k: (Stage, FullClass), c: &CompactMethod)
    requires g == g0.insert(k, g[k]), g[k]@ == (if g0.contains_key(k) { g0[k]@.push(c) } else { seq![c] }), k.1 == c.full_class
    ensures in_class(g, k.0, *c), forall|s: Stage, d: CompactMethod| in_class(g0, s, d) ==> #[trigger] in_class(g, s, d)
{
    assert(*g[(k.0, c.full_class)]@[g[k]@.len() - 1] == *c);
    assert forall|s: Stage, d: CompactMethod| in_class(g0, s, d) implies #[trigger] in_class(g, s, d) by {
        let q = (s, d.full_class);
        let i = choose|i: int| 0 <= i < g0[q]@.len() && *(#[trigger] g0[q]@[i]) == d;
        assert(*g[q]@[i] == d);
    }
}
@mod method_lib
use crate::vf::HashMap;
use crate::sp::*;
use crate::vf::*;
use crate::stage::stage_of;
use crate::place_not::{block_of, expansion, all_wf, wf};
/// The method made of a stored one: its title, name, class and the rows of its place notation
pub open spec fn made_of(m: Method, c: CompactMethod, stage: Stage) -> bool {
    m.title@ == c.title@ && m.name@ == c.name@ && m.class == c.full_class && m.first_lead.ok() && m.first_lead.rows.stage == stage
        && (block_of(c.place_notation@, stage) matches Ok(b) && expansion(m.first_lead.rs(), rounds_seq(stage.0 as int), b, b.len() as int) && m.first_lead.annots@.len() == b.len())
        && forall|i: int| 0 <= i < m.first_lead.annots@.len() ==> (#[trigger] m.first_lead.annots@[i]) is None
}
pub open spec fn remade(res: Result<Method, (&str, PnBlockParseError)>, c: CompactMethod, stage: Stage) -> bool {
    match res { Ok(m) => made_of(m, c, stage), Err(e) => e.0@ == c.place_notation@ && block_of(c.place_notation@, stage) == Err::<Seq<crate::place_not::PnV>, PnBlockParseError>(e.1) }
}
/// The last word of a text
pub open spec fn last_word(t: Seq<char>) -> Seq<char> { piece(t, ' ', cuts(t, ' ').len() as int) }
impl MethodLib {
    /// The method stored at a lower-case title
    pub open spec fn at(&self, t: Seq<char>) -> Option<CompactMethod> {
        match stage_of(last_word(t)) { Some(s) => if self.method_map@.contains_key(s) && self.method_map@[s]@.contains_key(t) { Some(self.method_map@[s]@[t]) } else { None }, None => None }
    }
}
@fn method_lib::CompactMethod::to_method
    requires stage.0 > 0
    ensures remade(res, *self, stage)
@closure 0 |e: PnBlockParseError| -> (r: (&str, PnBlockParseError)) ensures r.0@ == self.place_notation@, r.1 == e
@hint end
    proof { assert(forall|a: PnBlock| all_wf(a@, stage) && a@.len() > 0 ==> wf(#[trigger] a@[0]) && a@[0].stage == stage); }
@fn method_lib::MethodLib::get_by_title_option
    ensures match (res, self.at(lower_case_title@)) { (Some(r), Some(c)) => remade(r, c, stage_of(last_word(lower_case_title@))->0), (None, None) => true, _ => false }
@fn method_lib::MethodLib::get_by_title
    ensures match (res, self.at(lowercase(title@))) {
        (Ok(m), Some(c)) => made_of(m, c, stage_of(last_word(lowercase(title@)))->0),
        (Err(QueryError::PnParseErr { pn, error }), Some(c)) => pn@ == c.place_notation@ && block_of(c.place_notation@, stage_of(last_word(lowercase(title@)))->0) == Err::<Seq<crate::place_not::PnV>, PnBlockParseError>(error),
        (Err(QueryError::NotFound(_)), None) => true, _ => false }

@fn method_lib::MethodLib::get_by_title_with_suggestions
    ensures match (res, self.at(lowercase(title@))) {
        (Ok(m), Some(c)) => made_of(m, c, stage_of(last_word(lowercase(title@)))->0),
        (Err(QueryError::PnParseErr { pn, error }), Some(c)) => pn@ == c.place_notation@ && block_of(c.place_notation@, stage_of(last_word(lowercase(title@)))->0) == Err::<Seq<crate::place_not::PnV>, PnBlockParseError>(error),
        (Err(QueryError::NotFound(v)), None) => self.near(lowercase(title@), num_suggestions as int, v@), _ => false }
@closure 0 |e: QueryError<'s, ()>| -> (r: QueryError<'s, Vec<(&'s str, usize)>>)
    ensures match (e, r) { (QueryError::PnParseErr { pn, error }, QueryError::PnParseErr { pn: q, error: f }) => pn == q && error == f, (QueryError::NotFound(_), QueryError::NotFound(v)) => self.near(lower_case_title@, num_suggestions as int, v@), _ => false }
@closure 1 |u: ()| -> (r: Vec<(&'s str, usize)>) ensures self.near(lower_case_title@, num_suggestions as int, r@)
@hint start
    proof { crate::vf::axiom_lowercase_twice(title@); }
@fn method_lib::Suggestion::new
    ensures res.0.0@ == suggestion_title@, res.0.1 == distance(actual_title@, suggestion_title_lower@)
@fn method_lib::<Suggestion as Ord>::cmp => cmp
    ensures res == compare(self.rank(), other.rank())
@fn method_lib::<Suggestion as PartialOrd>::partial_cmp => partial_cmp
    ensures res == Some(compare(self.rank(), other.rank()))
@fn method_lib::<Suggestion as PartialEq>::eq => eq
    ensures res == (self.rank() == other.rank())
@mod method_lib
/// Nearer suggestions rank higher
impl<'s> VfRank for Suggestion<'s> { open spec fn rank(&self) -> int { -(self.0.1 as int) } }
/// The titles of a stage, with their distances
pub open spec fn titles(m: HashMap<String, CompactMethod>, t: Seq<char>) -> Seq<(Seq<char>, int)> { Seq::new(m.order().len(), |i: int| (m.order()[i].1.title@, distance(t, m.order()[i].0@))) }
/// The titles of the first `k` stages
pub open spec fn all_titles(o: Seq<(&Stage, &HashMap<String, CompactMethod>)>, t: Seq<char>, k: int) -> Seq<(Seq<char>, int)> decreases k { if k <= 0 { Seq::empty() } else { all_titles(o, t, k - 1) + titles(*o[k - 1].1, t) } }
pub open spec fn shows_title(a: (&str, usize), b: (Seq<char>, int)) -> bool { a.0@ == b.0 && a.1 == b.1 }
/// `r` is the nearest `n` of `all`, the nearest first; `p` lists `all` by index, those of `r` first
pub open spec fn nearest(r: Seq<(&str, usize)>, all: Seq<(Seq<char>, int)>, n: int, p: Seq<int>) -> bool {
    &&& p.len() == all.len() && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < all.len()) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j])
    &&& r.len() == (if n < all.len() { n } else { all.len() as int }) && forall|i: int| 0 <= i < r.len() ==> shows_title(#[trigger] r[i], all[p[i]])
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).1 <= (#[trigger] r[j]).1
    &&& forall|i: int, j: int| 0 <= i < r.len() <= j < p.len() ==> (#[trigger] r[i]).1 <= all[#[trigger] p[j]].1
}
impl MethodLib {
    /// `r` is the nearest `n` of the stored titles
    pub open spec fn near(&self, t: Seq<char>, n: int, r: Seq<(&str, usize)>) -> bool { exists|p: Seq<int>| #[trigger] nearest(r, all_titles(self.method_map.order(), t, self.method_map.order().len() as int), n, p) }
}
pub proof fn lemma_count_titles(o: Seq<(&Stage, &HashMap<String, CompactMethod>)>, t: Seq<char>, lens: Seq<usize>, k: int)
    requires 0 <= k <= lens.len(), forall|i: int| 0 <= i < k ==> (#[trigger] lens[i]) == (o[i].1).order().len()
    ensures all_titles(o, t, k).len() == total(lens.take(k))
    decreases k
{
    if k > 0 { lemma_count_titles(o, t, lens, k - 1); assert(lens.take(k).drop_last() =~= lens.take(k - 1)); } else { assert(lens.take(0).len() == 0); }
}
@fn method_lib::MethodLib::generate_suggestions
    ensures self.near(lower_case_title@, num_suggestions as int, res@)
@closure 0 |p: (&String, &CompactMethod)| -> (r: Suggestion) ensures r.0.0@ == p.1.title@, r.0.1 == distance(lower_case_title@, p.0@)
@closure 1 |s: Suggestion| -> (r: (&str, usize)) ensures r == s.0
@loop 0
    invariant suggestion_shortlist.room() == num_suggestions, shown(suggestion_shortlist.added(), all_titles(o, lower_case_title@, k_0)), o == self.method_map.order(), xs_0.len() == o.len(), forall|i: int| 0 <= i < xs_0.len() ==> #[trigger] xs_0[i] == o[i].1
@hint start
    let ghost o = self.method_map.order(); let ghost n0 = num_suggestions as int;
    proof {
        axiom_maps_fit(&self.method_map);
        assert forall|s: Seq<usize>| s.len() == o.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == o[i].1.order().len()) implies #[trigger] total(s) == all_titles(o, lower_case_title@, o.len() as int).len() by {
            lemma_count_titles(o, lower_case_title@, s, o.len() as int); assert(s.take(s.len() as int) =~= s);
        }
    }
@hint before return 0
    proof {
        let all = all_titles(o, lower_case_title@, o.len() as int);
        assert(nearest(Seq::empty(), all, n0, Seq::new(all.len(), |i: int| i)));
    }
@hint before let best_suggestions
    let ghost added = suggestion_shortlist.added();
@hint before call reverse
    let ghost best = best_suggestions@;
@hint end
    proof {
        let all = all_titles(o, lower_case_title@, o.len() as int);
        let p = choose|p: Seq<int>| #[trigger] highest(best, added, num_suggestions as int, p);
        let k = best.len() as int;
        let q = Seq::new(p.len(), |i: int| if i < k { p[k - 1 - i] } else { p[i] });
        assert forall|i: int| 0 <= i < k implies #[trigger] res@[i] == best[k - 1 - i].0 by { assert(crate::vf::ix(i)); }
        assert forall|i: int| 0 <= i < k implies shows_title(#[trigger] res@[i], all[q[i]]) by { assert(best[k - 1 - i] == added[p[k - 1 - i]]); }
        assert forall|i: int, j: int| 0 <= i < j < k implies (#[trigger] res@[i]).1 <= (#[trigger] res@[j]).1 by { assert(best[k - 1 - j].rank() <= best[k - 1 - i].rank()); }
        assert forall|i: int, j: int| 0 <= i < k <= j < q.len() implies (#[trigger] res@[i]).1 <= all[#[trigger] q[j]].1 by { assert(added[p[j]].rank() <= best[k - 1 - i].rank()); }
        assert(nearest(res@, all, n0, q));
    }
@mod method_lib
/// The suggestions stand for these titles
pub open spec fn shown(s: Seq<Suggestion>, all: Seq<(Seq<char>, int)>) -> bool { s.len() == all.len() && forall|i: int| 0 <= i < s.len() ==> shows_title((#[trigger] s[i]).0, all[i]) }
@fn method_lib::QueryError::unwrap_parse_err
    requires self is NotFound
    ensures match self { QueryError::NotFound(v) => res == Err::<Method, T>(v), _ => false }
@fn method_lib::QueryError::map_not_found
    requires self matches QueryError::NotFound(v) ==> call_requires(f, (v,))
    ensures match (self, res) {
        (QueryError::NotFound(v), QueryError::NotFound(u)) => call_ensures(f, (v,), u),
        (QueryError::PnParseErr { pn, error }, QueryError::PnParseErr { pn: q, error: e }) => pn == q && error == e, _ => false }
@mod method_lib::lib_serde
/// A library read from groups is one that can be written
pub proof fn lemma_read_ok(m: Map<Stage, HashMap<String, CompactMethod>>, gs: Seq<MethodGroup>)
    requires read_to(m, gs, gs.len() as int, 0), forall|i: int| 0 <= i < gs.len() ==> group_ok(#[trigger] gs[i])
    ensures lib_ok(m)
{
    assert forall|s: Stage| #[trigger] m.contains_key(s) && m[s]@ != Map::<Seq<char>, CompactMethod>::empty() implies 1 <= s.0 <= 22 by {
        let t = choose|t: Seq<char>| m[s]@.contains_key(t);
        if !m[s]@.contains_key(t) { assert(m[s]@ =~= Map::<Seq<char>, CompactMethod>::empty()); }
        assert(finds(m, s, t) is Some);
        let (i, j) = choose|i: int, j: int| earlier(i, j, gs.len() as int, 0) && #[trigger] says(gs, i, j, s, finds(m, s, t)->0);
        assert(group_ok(gs[i]));
    }
}
/// Reading back what a library wrote answers every lookup as the library does
pub proof fn lemma_round_trip(m: Map<Stage, HashMap<String, CompactMethod>>, gs: Seq<MethodGroup>, back: Map<Stage, HashMap<String, CompactMethod>>)
    requires lib_ok(m), written(gs, m), read_to(back, gs, gs.len() as int, 0)
    ensures forall|s: Stage, t: Seq<char>| #[trigger] finds(back, s, t) == finds(m, s, t)
{
    assert forall|s: Stage, t: Seq<char>| #[trigger] finds(back, s, t) == finds(m, s, t) by {
        if finds(back, s, t) is Some {
            let (i, j) = choose|i: int, j: int| earlier(i, j, gs.len() as int, 0) && #[trigger] says(gs, i, j, s, finds(back, s, t)->0);
            let u = choose|u: Seq<char>| #[trigger] finds(m, s, u) == Some(finds(back, s, t)->0);
            assert(u == t);
        } else if finds(m, s, t) is Some {
            let (i, j) = choose|i: int, j: int| #[trigger] says(gs, i, j, s, finds(m, s, t)->0);
            assert(earlier(i, j, gs.len() as int, 0));
            assert(finds(back, s, lowercase(finds(m, s, t)->0.title)) is Some);
        }
    }
}
/// No two methods of a stage are said under one title
pub open spec fn distinct_titles(gs: Seq<MethodGroup>) -> bool {
    forall|i: int, j: int, k: int, l: int, s: Stage, e: Entry, f: Entry| #[trigger] says(gs, i, j, s, e) && #[trigger] says(gs, k, l, s, f) && lowercase(e.title) == lowercase(f.title) ==> e == f
}
/// Every method said is found at its title, as long as no two share one
pub proof fn lemma_found(m: Map<Stage, HashMap<String, CompactMethod>>, gs: Seq<MethodGroup>, i: int, j: int, s: Stage, e: Entry)
    requires read_to(m, gs, gs.len() as int, 0), distinct_titles(gs), says(gs, i, j, s, e)
    ensures finds(m, s, lowercase(e.title)) == Some(e)
{
    assert(earlier(i, j, gs.len() as int, 0));
    let f = finds(m, s, lowercase(e.title))->0;
    assert(finds(m, s, lowercase(e.title)) is Some);
    let (k, l) = choose|k: int, l: int| earlier(k, l, gs.len() as int, 0) && #[trigger] says(gs, k, l, s, f);
}
/// A lookup by title looks its lower case up on the stage its last word names
pub proof fn lemma_lookup(lib: &MethodLib, t: Seq<char>, s: Stage)
    requires crate::stage::stage_of(super::last_word(t)) == Some(s)
    ensures match (lib.at(t), finds(lib.method_map@, s, t)) { (Some(c), Some(e)) => entry_of(c) == e, (None, None) => true, _ => false }
{}
@fn method_lib::lib_serde::is_false
    ensures res == !*b
@mod method_lib
/// `serde_json`: what it writes, it reads back (its text is not modelled)
pub mod serde_json {
    use vstd::prelude::*;
    use super::lib_serde::MethodLibSerde;
    pub struct Error { pub e: int }
    pub uninterp spec fn read(t: Seq<char>) -> Option<MethodLibSerde>;
    #[verifier::external_body]
    pub fn to_string(x: &MethodLibSerde) -> (res: Result<String, Error>) ensures res matches Ok(t) ==> read(t@) == Some(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str<T>(t: &str) -> (res: Result<MethodLibSerde, Error>) ensures res is Ok <==> read(t@) is Some, res matches Ok(x) ==> read(t@) == Some(x) { unimplemented!() }
} // end of module
@fn method_lib::MethodLib::to_json
    requires lib_serde::lib_ok(self.method_map@)
    ensures res matches Ok(t) ==> (serde_json::read(t@) matches Some(w) && lib_serde::written(w.groups@, self.method_map@) && lib_serde::readable(w))
@opt from_as to_said
@fn method_lib::MethodLib::from_json
    requires serde_json::read(json@) matches Some(w) ==> lib_serde::readable(w)
    ensures res is Ok <==> serde_json::read(json@) is Some,
        res matches Ok(lib) ==> lib_serde::read_to(lib.method_map@, serde_json::read(json@)->0.groups@, serde_json::read(json@)->0.groups@.len() as int, 0)
@opt from_as from_said
@closure 0 |w: lib_serde::MethodLibSerde| -> (r: Self) requires lib_serde::readable(w) ensures lib_serde::read_to(r.method_map@, w.groups@, w.groups@.len() as int, 0)
@mod method_lib::lib_serde
pub open spec fn readable(w: MethodLibSerde) -> bool { forall|i: int| 0 <= i < w.groups@.len() ==> group_ok(#[trigger] w.groups@[i]) }
