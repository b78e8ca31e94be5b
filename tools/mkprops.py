#!/usr/bin/env python3
"""Writes contracts/props.json and MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, O, BL, S, PA, AC = "row::borrowed::Row::", "row::owned::RowBuf::", "bell::", "stage::", "parity::", "row::accumulator::"
P = {}
P["C02"] = dict(functions=[O + "parse", O + "parse_with_stage", O + "rounds", O + "backrounds", O + "queens", O + "from_vec", O + "from_bell_iter", O + "from_vec_with_stage", O + "into_bell_vec",
    O + "extend_to_stage", "row::owned::<RowBuf as FromStr>::from_str", "row::errors::*"])
P["C03"] = dict(functions=[R + "mul_*", "row::borrowed::<&RowBuf as Mul*", "row::borrowed::<&Row as Mul*", S + "IncompatibleStages::*"])
P["C04"] = dict(functions=[R + "inv", R + "inv_into", R + "inv_into_buf", R + "solve_*", R + "tranposition_to*", "row::borrowed::<&RowBuf as Not>::not", "row::borrowed::<&Row as Not>::not"])
P["C05"] = dict(functions=[R + "pow_i", R + "pow_u", R + "closure", R + "closure_from_rounds", AC + "*"])
P["C06"] = dict(functions=[R + "parity", PA + "*"])
P["C07"] = dict(functions=[R + x for x in ("stage", "bell_iter", "slice", "place_of", "get_bell_unchecked", "is_rounds", "is_backrounds", "effective_stage", "swap", "fixed_bells", "copy_into", "to_rc", "to_arc")]
    + ["row::borrowed::<Row as Index<usize>>::index", "row::owned::<RowBuf as *", "row::owned::<Row as *", O + "overwrite_from", O + "as_row", O + "as_mut_row"])
P["C08"] = dict(functions=[R + "is_group", R + "least_group_containing", R + "multi_cartesian_product"])
P["C09"] = dict(functions=[R + "fast_hash"])
P["C10"] = dict(functions=[BL + "*", S + "Stage::tenor"])
P["C11"] = dict(functions=[S + "*"])
PN, PB = "place_not::PlaceNot::", "place_not::PnBlock::"
P["C12"] = dict(functions=[PN + x for x in ("parse", "from_sorted_slice", "cross")])
P["C13"] = dict(functions=[PN + x for x in ("is_cross", "contains", "has_internal_places", "stage", "transposition", "permute*")])
P["C14"] = dict(functions=[PN + "pn_between"])
P["C15"] = dict(functions=[PB + x for x in ("parse", "parse_asym_block", "from_iter", "from_vec", "from_vec_unchecked", "place_nots", "stage", "len")] + ["place_not::<CharMeaning as From<char>>::from"])
V_ = "row::same_stage_vec::"
SV = V_ + "SameStageVec::"
P["C17"] = dict(functions=[SV + x for x in ("new", "with_capacity", "from_row_buf", "parse", "from_bell_vec_unchecked", "stage", "len", "is_empty", "get", "get_mut", "first", "first_mut", "last", "last_mut", "iter", "push", "pop", "extend", "extend_from_buf", "split", "get_range_of_row")]
    + [V_ + "<*", "utils::split_vec"])
P["C18"] = dict(functions=[SV + x for x in ("extend_transposed", "extend_range_transposed", "extend_transposed_from_within", "permute", "pre_multiply", "pre_multiplied", "path_of", "to_bell_range")] + ["utils::clamp_range"])
P["C16"] = dict(functions=[PB + x for x in ("to_rows", "to_block", "to_block_from_rounds")])
BK = "block::"
P["C19"] = dict(functions=[BK + "AnnotBlock::*", BK + "AnnotRow::*", BK + "<AnnotBlock*", BK + "<AnnotRow*"])
P["C20"] = dict(functions=[BK + "RepeatIter::*", BK + "<RepeatIter*", BK + "AnnotBlock::repeat_iter"])
MU = "music::"
P["C21"] = dict(functions=["mask::*"])
P["C22"] = dict(functions=[MU + "RegexElem::*"] + [MU + "Regex::" + x for x in ("parse", "from_elems*", "from_vec*", "normalise", "elems", "matches", "match_pattern", "run_match")])
P["C23"] = dict(functions=[MU + "Regex::" + x for x in ("runs_front", "runs_back", "all_runs", "runs_front_or_back", "runs", "num_matching_rows")] + ["utils::choice"])
P["C24"] = dict(functions=["utils::run_len"])
P["C01"] = dict(functions=[R + "*", O + "*", "row::owned::*", "row::borrowed::*", AC + "*", PN + "transposition", PN + "permute*", SV + "*", V_ + "<*", BK + "*", PB + "to_rows", PB + "to_block*"],
    explanation="validity of every row that is returned or left behind is a clause of the contract of each function that yields or changes a row")
for p in P:
    if p not in ("C10", "C11", "C02"):
        P[p]["functions"] += ["!Display>", "!Debug>"]
DISP = [BL + "<Bell as Display>::fmt", "row::borrowed::<Row as Display>::fmt", "row::owned::<RowBuf as Display>::fmt", "place_not::<PlaceNot as Display>::fmt", "mask::<Mask as Display>::fmt",
    MU + "<RegexElem as Display>::fmt", MU + "<Regex as Display>::fmt"]
PARSE = [BL + "Bell::from_name", O + "parse", O + "parse_with_stage", "row::owned::<RowBuf as FromStr>::from_str", PN + "parse", PN + "from_sorted_slice", "mask::Mask::parse", MU + "Regex::parse"]
P["C29"] = dict(functions=DISP + PARSE + [BL + "Bell::name", BL + "Bell::to_char", MU + "Regex::from_vec", MU + "Regex::normalise"])
P["C30"] = dict(functions=DISP + PARSE + [SV + "parse", BK + "AnnotBlock::parse", PB + "parse", PB + "parse_asym_block", "place_not::<CharMeaning as From<char>>::from", "stage::<Stage as Display>::fmt",
    "row::errors::<InvalidRowError as Display>::fmt", V_ + "<ParseError as Display>::fmt", BK + "<ParseError as Display>::fmt", "place_not::<ParseError as Display>::fmt", "place_not::<PnBlockParseError as Display>::fmt", "place_not::<InvalidPnBlockError as Display>::fmt",
    "row::borrowed::<Row as Debug>::fmt", "row::owned::<RowBuf as Debug>::fmt", "place_not::<PlaceNot as Debug>::fmt", "mask::<Mask as Debug>::fmt", MU + "<Regex as Debug>::fmt", BL + "<Bell as Debug>::fmt", S + "<Stage as Debug>::fmt",
    "row::borrowed::<DbgRow as Debug>::fmt", V_ + "<SameStageVec as Debug>::fmt", BK + "<AnnotBlock<T> as Debug>::fmt", BK + "<Pair<K,V> as Debug>::fmt"])
MT = "method::"
CL = MT + "class::"
P["C25"] = dict(functions=[CL + x for x in ("FullClass::*", "Class::*", "Cycle::*", "classify", "classify_hunt_cycle", "sub_classify_plain", "sub_classify_treble_dodging", "is_palindromic", "<FullClass as Display>::fmt", "<Class as Display>::fmt")] + [MT + "generate_title"])
P["C26"] = dict(functions=[MT + "Method::*", MT + "RowAnnot::*", MT + "generate_title"])
P["C31"] = dict(functions=["call::*"])
SERDE = ["Visitor", "Deserialize>", "Serialize>", "try_parse_"]
for p in ("C10", "C11"):
    P[p]["functions"] += ["!" + x for x in SERDE]
P["C28"] = dict(functions=[m + x for m in (BL, S) for x in ("<BellVisitor*", "<StageVisitor*", "<Bell as Deserialize*", "<Bell as Serialize*", "<Stage as Deserialize*", "<Stage as Serialize*", "try_parse_*")] + [BL + "Bell::from_number", BL + "Bell::from_name", S + "Stage::from_lower_case_name", S + "<Stage as TryFrom<usize>>::try_from"])
P["C27"] = dict(functions=["method_lib::*", MT + "generate_title", S + "Stage::from_lower_case_name"],
    bounded=["the JSON text itself is serde_json's: an assumed contract says that what it writes for a record it reads back; that the attributes of the derived records allow it (distinct names, a left-out field stands for its default) is an obligation, and the text is compared on the replay harness's cases",
        "edit_distance and Shortlist (dependencies) enter through assumed contracts"])
NA = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    if d["id"] not in P:
        NA[d["id"]] = "no check is finished for this property yet"

def main():
    json.dump(P, open(os.path.join(V, "contracts/props.json"), "w"), indent=1, sort_keys=True)
    checks = []
    for pid in sorted(P):
        s = P[pid]
        note = "Verus discharges, for all inputs, every obligation of the contracts on the functions this property depends on, generated from /repo's current source."
        if s.get("bounded"):
            note += " Not proved (bounded stand-in only): " + "; ".join(s["bounded"]) + "."
        note += " Trusted: xlate's translation, contracts/shim.rs and vstd specifications of the standard library, from_slice_unchecked's pointer cast, Verus and Z3. Counterexamples come from running the executable contracts on the real crate."
        checks.append(dict(property=pid, quick_cmd="./check %s --tier quick" % pid, thorough_cmd="./check %s --tier thorough" % pid,
            technique=s.get("technique", "contract-based deductive verification (Verus contracts on the code extracted from /repo each run)"), level=s.get("level", "proof"), level_note=note))
    m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
        notes="No hooks in /repo. known_findings.txt lists the repaired defects.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

main()
