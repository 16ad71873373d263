//! Semantics of intrinsics and of the standard containers.
use crate::bdd::{self, Bdd, F, T};
use crate::interp::*;
use crate::types::*;
use crate::val::*;
use rustc_public::mir::BinOp;
use rustc_public::ty::{FnDef, GenericArgKind, GenericArgs, RigidTy, Ty, TyKind};
use std::rc::Rc;

/// standard-library item -> model function of the client crate
fn model_for(name: &str, targs: &[Ty]) -> Option<&'static str> {
    let s0 = targs.first().copied();
    let is = |n: &str| s0.is_some_and(|t| adt_is(t, n));
    let seq = |t: Ty| is_slice_like(t) || array_len(t).is_some();
    let slice = s0.is_some_and(seq);
    let s1 = targs.get(1).copied();
    fn text(t: Ty) -> bool {
        matches!(&*kind(t), TyKind::RigidTy(RigidTy::Str))
            || adt_is(t, "std::string::String")
            || pointee(t).is_some_and(text)
    }
    let texts = [s0, s1].iter().all(|t| t.is_some_and(text))
        && [s0, s1].iter().any(|t| t.is_some_and(|t| adt_is(t, "std::string::String")));
    // a vector compared with a vector, a slice, an array or a reference to one
    let is_vec = |t: Option<Ty>| {
        t.is_some_and(|t| adt_is(t, "std::vec::Vec") || adt_is(t, "std::collections::VecDeque"))
    };
    let seq_iter = |t: Ty| {
        ["std::vec::IntoIter", "std::vec::Drain", "std::vec::Splice", "std::vec::ExtractIf", "std::array::IntoIter", "std::collections::vec_deque::IntoIter",
            "std::collections::vec_deque::Drain", "std::collections::hash_set::IntoIter",
            "std::collections::hash_set::Drain", "std::collections::btree_set::IntoIter"]
        .iter()
        .any(|n| adt_is(t, n))
    };
    // the part after `hash_map::` or `btree_map::`
    let map_iter = s0.and_then(adt).and_then(|(d, _)| {
        let n = adt_name(&d).to_string();
        n.strip_prefix("std::collections::hash_map::")
            .or(n.strip_prefix("std::collections::btree_map::"))
            .map(|x| x.to_string())
    });
    let map_iter = map_iter.as_deref().unwrap_or("");
    let side = |t: Option<Ty>| is_vec(t) || t.is_some_and(|t| seq(t) || pointee(t).is_some_and(seq));
    let vecs = (is_vec(s0) || is_vec(s1)) && side(s0) && side(s1);
    if let Some(m) = name.strip_prefix("std::iter::Iterator::") {
        return Some(match m {
            "fold" => "iter_fold",
            "for_each" => "iter_for_each",
            "count" => "iter_count",
            "last" => "iter_last",
            "nth" => "iter_nth",
            "all" => "iter_all",
            "any" => "iter_any",
            "find" => "iter_find",
            "find_map" => "iter_find_map",
            "position" => "iter_position",
            // its `next` is defined through `try_fold`
            "try_fold" if s0.is_some_and(|t| adt_named(t, "GenericShunt")) => return None,
            "try_fold" => "iter_try_fold",
            "rposition" => "iter_rposition",
            "partition" => "iter_partition",
            "next" if s0.is_some_and(seq_iter) => "into_iter_next",
            "next" if map_iter == "Range" => "hm_iter_next",
            "next" if map_iter == "RangeMut" => "hm_iter_mut_next",
            "next" if map_iter == "Iter" => "hm_iter_next",
            "next" if map_iter == "IterMut" => "hm_iter_mut_next",
            "next" if map_iter == "Keys" => "hm_keys_next",
            "next" if map_iter == "Values" => "hm_values_next",
            "next" if map_iter == "ValuesMut" => "hm_values_mut_next",
            "next" if map_iter == "IntoIter" => "hm_into_iter_next",
            "next" if map_iter == "IntoKeys" => "into_keys_next",
            "next" if map_iter == "IntoValues" => "into_values_next",
            "next" if map_iter == "Drain" => "hm_drain_next",
            "next" if is("std::str::Chars") => "chars_next",
            "size_hint" if is("std::str::Chars") => "chars_size_hint",
            "next" if is("std::str::Bytes") => "bytes_next",
            "next" if is("std::str::CharIndices") => "char_indices_next",
            _ => return None,
        });
    }
    if let Some(m) = name.strip_prefix("std::iter::DoubleEndedIterator::") {
        return Some(match m {
            "rfold" => "iter_rfold",
            "try_rfold" => "iter_try_rfold",
            "rfind" => "iter_rfind",
            "nth_back" => "iter_nth_back",
            "next_back" if s0.is_some_and(seq_iter) => "into_iter_next_back",
            "next_back" if map_iter == "Range" => "kv_next_back",
            "next_back" if map_iter == "IterMut" || map_iter == "RangeMut" => "kv_mut_next_back",
            "next_back" if map_iter == "Keys" => "keys_next_back",
            "next_back" if map_iter == "Values" => "values_next_back",
            "next_back" if map_iter == "ValuesMut" => "values_mut_next_back",
            "next_back" if map_iter == "IntoIter" => "kv_into_next_back",
            "next_back" if map_iter == "Iter" => "kv_next_back",
            "next_back" if is("std::str::Chars") => "chars_next_back",
            "next_back" if is("std::str::Bytes") => "bytes_next_back",
            _ => return None,
        });
    }
    Some(match name {
        "std::iter::adapters::zip::ZipImpl::next" => "zip_next",
        "std::iter::adapters::zip::ZipImpl::next_back" => "zip_next_back",
        "std::iter::adapters::zip::ZipImpl::new" => "zip_new",
        "std::iter::FromIterator::from_iter" if is("std::vec::Vec") || is("std::collections::VecDeque") => "vec_from_iter",
        "std::iter::FromIterator::from_iter" if is("std::collections::BTreeMap") => "bm_from_iter",
        "std::iter::FromIterator::from_iter" if is("std::collections::HashSet") => "hs_from_iter",
        "std::iter::FromIterator::from_iter" if is("std::collections::BTreeSet") => "bs_from_iter",
        "std::convert::From::from" if s1.is_some_and(|t| array_len(t).is_some()) && is("std::collections::HashMap") => "hm_from",
        "std::convert::From::from" if s1.is_some_and(|t| array_len(t).is_some()) && is("std::collections::BTreeMap") => "bm_from",
        "std::convert::From::from" if s1.is_some_and(|t| array_len(t).is_some()) && is("std::collections::HashSet") => "hs_from",
        "std::convert::From::from" if s1.is_some_and(|t| array_len(t).is_some()) && is("std::collections::BTreeSet") => "bs_from",
        "std::convert::From::from" if s1.is_some_and(|t| array_len(t).is_some()) && (is("std::collections::VecDeque") || is("std::vec::Vec")) => "vd_from",
        "std::slice::<impl [T]>::concat" if s1.is_some_and(|t| matches!(&*kind(t), TyKind::RigidTy(RigidTy::Str))) => "str_concat",
        "std::slice::<impl [T]>::join" if s1.and_then(pointee).is_some_and(|t| matches!(&*kind(t), TyKind::RigidTy(RigidTy::Str))) => "str_join",
        "std::io::Read::read" if is("std::collections::VecDeque") => "vd_read",
        "std::io::Write::write" if is("std::collections::VecDeque") => "vd_write",
        "std::io::Write::write_all" if is("std::collections::VecDeque") => "vd_write_all",
        "std::iter::Extend::extend_one" | "std::iter::Extend::extend_one_unchecked" if is_vec(s0) => "vec_extend_one",
        "std::iter::Extend::extend" if is("std::collections::BTreeMap") => "bm_extend",
        "std::iter::Extend::extend" if is("std::collections::HashSet") => "hs_extend",
        "std::iter::Extend::extend" if is("std::collections::BTreeSet") => "bs_extend",
        "std::iter::IntoIterator::into_iter" if is("std::collections::HashSet") => "hs_into_iter",
        "std::iter::FromIterator::from_iter" if is("std::collections::HashMap") => "hm_from_iter",
        "std::iter::Extend::extend" if is_vec(s0) => {
            let e = ty_args(&adt(s0?)?.1)[0];
            if targs.get(1) == Some(&e) { "vec_extend" } else { "vec_extend_ref" }
        }
        "std::iter::Extend::extend" if is("std::collections::HashMap") => "hm_extend",
        "std::ops::Add::add" if is("std::string::String") => "string_add",
        "std::ops::AddAssign::add_assign" if is("std::string::String") => "string_add_assign",
        "std::cmp::PartialEq::eq" if texts => "st_eq",
        "std::cmp::PartialEq::ne" if texts => "st_ne",
        "std::iter::IntoIterator::into_iter"
            if s0.and_then(pointee).is_some_and(|t| adt_is(t, "std::collections::HashSet")) =>
        {
            "hs_ref_iter"
        }
        "std::iter::IntoIterator::into_iter"
            if s0.and_then(pointee).is_some_and(|t| adt_is(t, "std::collections::HashMap")) =>
        {
            "hm_ref_iter"
        }
        "std::iter::IntoIterator::into_iter"
            if s0.and_then(pointee).is_some_and(|t| {
                ["BTreeMap", "BTreeSet", "VecDeque"].iter().any(|n| adt_is(t, &format!("std::collections::{n}")))
            }) =>
        {
            "seq_ref_iter"
        }
        "std::cmp::PartialEq::eq" if slice && targs.get(1).is_some_and(|t| seq(*t)) => {
            if matches!(&*kind(s0?), TyKind::RigidTy(RigidTy::Str)) { "str_eq" } else { "slice_eq" }
        }
        "std::cmp::PartialEq::ne" if slice && targs.get(1).is_some_and(|t| seq(*t)) => {
            if matches!(&*kind(s0?), TyKind::RigidTy(RigidTy::Str)) { "str_ne" } else { "slice_ne" }
        }
        "std::cmp::PartialEq::eq" if is("std::collections::BTreeMap") => "bm_eq",
        "std::cmp::PartialEq::eq" if is("std::collections::HashMap") => "hm_eq",
        "std::cmp::PartialEq::eq" if is("std::collections::BTreeSet") => "bs_eq",
        "std::cmp::PartialEq::eq" if is("std::collections::HashSet") => "hs_eq",
        "std::cmp::PartialEq::eq" if vecs => "slice_eq",
        "std::cmp::PartialEq::ne" if vecs => "slice_ne",
        "std::clone::Clone::clone" if s0.is_some_and(container) => "vec_clone",
        "std::clone::Clone::clone_from" if s0.is_some_and(container) => "vec_clone_from",
        "std::clone::Clone::clone_from" if is("std::string::String") => "string_clone_from",
        "std::ops::Index::index" if is_vec(s0) => "vec_index",
        "std::ops::IndexMut::index_mut" if is_vec(s0) => "vec_index_mut",
        "std::ops::Index::index" if is("std::collections::HashMap") || is("std::collections::BTreeMap") => "hm_index",
        "std::iter::IntoIterator::into_iter" if is("std::collections::HashMap") => "hm_into_iter",
        "std::borrow::ToOwned::to_owned" if s0.is_some_and(is_slice_like) => {
            if matches!(&*kind(s0?), TyKind::RigidTy(RigidTy::Str)) { "str_to_owned" } else { "slice_to_owned" }
        }
        "std::convert::From::from"
            if is("std::string::String") && targs.get(1).is_some_and(|t| pointee(*t).is_some()) =>
        {
            "string_from_str"
        }
        "std::convert::From::from"
            if is("std::vec::Vec")
                && targs.get(1).and_then(|t| pointee(*t)).is_some_and(is_slice_like) =>
        {
            "vec_from_slice"
        }
        _ => return None,
    })
}
/// inherent functions: std path -> model
const INHERENT: &[(&str, &str)] = &[
    ("std::vec::from_elem", "vec_from_elem"),
    ("std::array::from_fn", "array_from_fn"),
    ("std::array::<impl [T; N]>::map", "array_map"),
    ("std::slice::<impl [T]>::to_vec", "slice_to_vec"),
    ("std::slice::<impl [T]>::contains", "slice_contains"),
    ("std::slice::<impl [T]>::reverse", "slice_reverse"),
    ("std::slice::<impl [T]>::swap", "slice_swap"),
    ("std::slice::<impl [T]>::fill", "slice_fill"),
    ("std::slice::<impl [T]>::concat", "slice_concat"),
    ("std::f32::<impl f32>::powi", "f32_powi"),
    ("std::f64::<impl f64>::powi", "f64_powi"),
    ("std::slice::<impl [T]>::repeat", "slice_repeat"),
    ("std::slice::<impl [T]>::swap_with_slice", "slice_swap_with_slice"),
    ("std::vec::Vec::<T, A>::dedup_by_key", "vec_dedup_by_key"),
    ("std::vec::Vec::<T, A>::pop_if", "vec_pop_if"),
    ("std::slice::<impl [T]>::starts_with", "slice_starts_with"),
    ("std::slice::<impl [T]>::copy_from_slice", "slice_copy_from_slice"),
    ("std::slice::<impl [T]>::clone_from_slice", "slice_clone_from_slice"),
    ("std::slice::<impl [T]>::rotate_left", "slice_rotate_left"),
    ("std::slice::<impl [T]>::sort", "slice_sort"),
    ("std::slice::<impl [T]>::sort_unstable", "slice_sort"),
    ("std::slice::<impl [T]>::sort_by_key", "slice_sort_by_key"),
    ("std::slice::<impl [T]>::sort_unstable_by_key", "slice_sort_by_key"),
    ("std::slice::<impl [T]>::sort_by", "slice_sort_by"),
    ("std::slice::<impl [T]>::sort_unstable_by", "slice_sort_by"),
    ("std::slice::<impl [T]>::binary_search_by", "slice_binary_search_by"),
    ("std::vec::Vec::<T, A>::extend_from_slice", "vec_extend_from_slice"),
    ("std::vec::Vec::<T, A>::extend_from_within", "vec_extend_from_within"),
    ("std::vec::Vec::<T, A>::append", "vec_append"),
    ("std::vec::Vec::<T, A>::split_off", "vec_split_off"),
    ("std::vec::Vec::<T, A>::resize", "vec_resize"),
    ("std::vec::Vec::<T, A>::resize_with", "vec_resize_with"),
    ("std::vec::Vec::<T, A>::drain", "vec_drain"),
    ("std::vec::Vec::<T, A>::retain", "vec_retain"),
    ("std::vec::Vec::<T, A>::retain_mut", "vec_retain_mut"),
    ("std::vec::Vec::<T, A>::swap_remove", "vec_swap_remove"),
    ("std::vec::Vec::<T, A>::dedup", "vec_dedup"),
    ("std::collections::HashMap::<K, V, S, A>::insert", "hm_insert"),
    ("std::collections::HashMap::<K, V, S, A>::get", "hm_get"),
    ("std::collections::HashMap::<K, V, S, A>::get_mut", "hm_get_mut"),
    ("std::collections::HashMap::<K, V, S, A>::get_key_value", "hm_get_key_value"),
    ("std::collections::HashMap::<K, V, S, A>::contains_key", "hm_contains_key"),
    ("std::collections::HashMap::<K, V, S, A>::remove", "hm_remove"),
    ("std::collections::HashMap::<K, V, S, A>::remove_entry", "hm_remove_entry"),
    ("std::collections::HashMap::<K, V, S, A>::retain", "hm_retain"),
    ("std::collections::HashMap::<K, V, S, A>::clear", "hm_clear"),
    ("std::collections::HashMap::<K, V, S, A>::drain", "hm_drain"),
    ("std::collections::HashMap::<K, V, S, A>::iter", "hm_iter"),
    ("std::collections::HashMap::<K, V, S, A>::iter_mut", "hm_iter_mut"),
    ("std::collections::HashMap::<K, V, S, A>::keys", "hm_keys"),
    ("std::collections::HashMap::<K, V, S, A>::values", "hm_values"),
    ("std::collections::HashMap::<K, V, S, A>::values_mut", "hm_values_mut"),
    ("std::collections::HashMap::<K, V, S, A>::len", "hm_len"),
    ("std::collections::HashMap::<K, V, S, A>::is_empty", "hm_is_empty"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert", "hm_or_insert"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with", "hm_or_insert_with"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with_key", "hm_or_insert_with_key"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_default", "hm_or_default"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::and_modify", "hm_and_modify"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::key", "hm_entry_key"),
    ("std::collections::btree_map::Entry::<'a, K, V, A>::or_insert", "bm_or_insert"),
    ("std::collections::btree_map::Entry::<'a, K, V, A>::or_insert_with", "bm_or_insert_with"),
    ("std::collections::btree_map::Entry::<'a, K, V, A>::or_insert_with_key", "bm_or_insert_with_key"),
    ("std::collections::btree_map::Entry::<'a, K, V, A>::or_default", "bm_or_default"),
    ("std::collections::btree_map::Entry::<'a, K, V, A>::and_modify", "bm_and_modify"),
    ("std::collections::btree_map::Entry::<'a, K, V, A>::key", "bm_entry_key"),
    ("std::collections::hash_map::Entry::<'a, K, V>::or_default", "hm_or_default"),
    ("std::collections::btree_map::Entry::<'a, K, V>::or_default", "bm_or_default"),
    ("std::string::String::len", "string_len"),
    ("std::string::String::is_empty", "string_is_empty"),
    ("std::string::String::clear", "string_clear"),
    ("std::string::String::pop", "string_pop"),
    ("std::vec::Vec::<T, A>::splice", "vec_splice"),
    ("std::slice::<impl [T]>::rotate_right", "slice_rotate_right"),
    ("std::vec::Vec::<T, A>::append_elements", "vec_append_elements"),
    ("std::str::<impl str>::replacen", "str_replacen"),
    ("std::str::<impl str>::trim_start", "str_trim_start"),
    ("std::str::<impl str>::trim_end", "str_trim_end"),
    ("std::string::String::push", "string_push"),
    ("std::string::String::push_str", "string_push_str"),
    ("std::slice::memchr::memchr", "memchr"),
    ("core::slice::memchr::memchr", "memchr"),
    ("std::slice::memchr::memrchr", "memrchr"),
    ("std::collections::HashMap::<K, V, S, A>::entry", "hm_entry"),
    ("std::collections::HashMap::<K, V, S, A>::into_keys", "hm_into_keys"),
    ("std::collections::HashMap::<K, V, S, A>::into_values", "hm_into_keys"),
    ("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::key", "occ_key"),
    ("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::get", "occ_get"),
    ("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::get_mut", "occ_get_mut"),
    ("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::into_mut", "occ_into_mut"),
    ("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::insert", "occ_insert"),
    ("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::remove", "occ_remove"),
    ("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::remove_entry", "occ_remove_entry"),
    ("std::collections::hash_map::VacantEntry::<'a, K, V, A>::key", "vac_key"),
    ("std::collections::hash_map::VacantEntry::<'a, K, V, A>::into_key", "vac_into_key"),
    ("std::collections::hash_map::VacantEntry::<'a, K, V, A>::insert", "hm_vac_insert"),
    ("std::collections::hash_map::VacantEntry::<'a, K, V, A>::insert_entry", "hm_vac_insert_entry"),
    ("std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::key", "occ_key"),
    ("std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::get", "occ_get"),
    ("std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::get_mut", "occ_get_mut"),
    ("std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::into_mut", "occ_into_mut"),
    ("std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::insert", "occ_insert"),
    ("std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::remove", "occ_remove"),
    ("std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::remove_entry", "occ_remove_entry"),
    ("std::collections::btree_map::VacantEntry::<'a, K, V, A>::key", "vac_key"),
    ("std::collections::btree_map::VacantEntry::<'a, K, V, A>::into_key", "vac_into_key"),
    ("std::collections::btree_map::VacantEntry::<'a, K, V, A>::insert", "bm_vac_insert"),
    ("std::collections::BTreeMap::<K, V, A>::insert", "bm_insert"),
    ("std::collections::BTreeMap::<K, V, A>::get", "bm_get"),
    ("std::collections::BTreeMap::<K, V, A>::get_mut", "bm_get_mut"),
    ("std::collections::BTreeMap::<K, V, A>::contains_key", "bm_contains_key"),
    ("std::collections::BTreeMap::<K, V, A>::remove", "bm_remove"),
    ("std::collections::BTreeMap::<K, V, A>::remove_entry", "bm_remove_entry"),
    ("std::collections::BTreeMap::<K, V, A>::retain", "bm_retain"),
    ("std::collections::BTreeMap::<K, V, A>::iter", "bm_iter"),
    ("std::collections::BTreeMap::<K, V, A>::iter_mut", "bm_iter_mut"),
    ("std::collections::BTreeMap::<K, V, A>::keys", "bm_iter"),
    ("std::collections::BTreeMap::<K, V, A>::values", "bm_iter"),
    ("std::collections::BTreeMap::<K, V, A>::values_mut", "bm_iter_mut"),
    ("std::collections::BTreeMap::<K, V, A>::into_keys", "bm_into"),
    ("std::collections::BTreeMap::<K, V, A>::into_values", "bm_into"),
    ("std::collections::BTreeMap::<K, V, A>::entry", "bm_entry"),
    ("std::collections::BTreeMap::<K, V, A>::pop_first", "bm_pop_first"),
    ("std::collections::BTreeMap::<K, V, A>::pop_last", "bm_pop_last"),
    ("std::collections::BTreeMap::<K, V, A>::first_key_value", "bm_first_key_value"),
    ("std::collections::BTreeMap::<K, V, A>::last_key_value", "bm_last_key_value"),
    ("std::collections::HashSet::<T, S, A>::insert", "hs_insert"),
    ("std::collections::HashSet::<T, S, A>::contains", "hs_contains"),
    ("std::collections::HashSet::<T, S, A>::remove", "hs_remove"),
    ("std::collections::HashSet::<T, S, A>::iter", "hs_iter"),
    ("std::collections::HashSet::<T, S, A>::drain", "hs_drain"),
    ("std::collections::HashSet::<T, S, A>::len", "hs_len"),
    ("std::collections::HashSet::<T, S, A>::is_empty", "hs_is_empty"),
    ("std::collections::HashSet::<T, S, A>::clear", "hs_clear"),
    ("std::collections::BTreeSet::<T, A>::insert", "bs_insert"),
    ("std::collections::BTreeSet::<T, A>::contains", "bs_contains"),
    ("std::collections::BTreeSet::<T, A>::remove", "bs_remove"),
    ("std::collections::BTreeSet::<T, A>::iter", "vd_iter"),
    ("std::collections::BTreeSet::<T, A>::first", "vd_front"),
    ("std::collections::BTreeSet::<T, A>::last", "vd_back"),
    ("std::collections::BTreeSet::<T, A>::pop_first", "vd_pop_front"),
    ("std::collections::VecDeque::<T, A>::push_front", "vd_push_front"),
    ("std::collections::VecDeque::<T, A>::pop_front", "vd_pop_front"),
    ("std::collections::VecDeque::<T, A>::front", "vd_front"),
    ("std::collections::VecDeque::<T, A>::back", "vd_back"),
    ("std::collections::VecDeque::<T, A>::front_mut", "vd_front_mut"),
    ("std::collections::VecDeque::<T, A>::back_mut", "vd_back_mut"),
    ("std::collections::VecDeque::<T, A>::get", "vd_get"),
    ("std::collections::VecDeque::<T, A>::get_mut", "vd_get_mut"),
    ("std::collections::VecDeque::<T, A>::iter", "vd_iter"),
    ("std::collections::VecDeque::<T, A>::iter_mut", "vd_iter_mut"),
    ("std::collections::VecDeque::<T, A>::remove", "vd_remove"),
    ("std::collections::VecDeque::<T, A>::insert", "vd_insert"),
    ("std::collections::VecDeque::<T, A>::contains", "vd_contains"),
    ("std::collections::VecDeque::<T, A>::make_contiguous", "vd_make_contiguous"),
    ("std::collections::VecDeque::<T, A>::as_slices", "vd_as_slices"),
    ("std::collections::VecDeque::<T, A>::append", "vd_append"),
    ("std::collections::VecDeque::<T, A>::swap", "vd_swap"),
    ("std::collections::VecDeque::<T, A>::drain", "vec_drain"),
    ("std::collections::VecDeque::<T, A>::resize", "vec_resize"),
    ("std::collections::VecDeque::<T, A>::retain", "vec_retain"),
    ("std::collections::VecDeque::<T, A>::split_off", "vec_split_off"),
    ("std::str::<impl str>::to_uppercase", "str_to_uppercase"),
    ("std::str::<impl str>::to_lowercase", "str_to_lowercase"),
    ("std::str::<impl str>::to_ascii_uppercase", "str_to_uppercase"),
    ("std::str::<impl str>::to_ascii_lowercase", "str_to_lowercase"),
    ("std::str::<impl str>::replace", "str_replace"),
    ("std::str::<impl str>::trim", "str_trim"),
    ("std::collections::BTreeMap::<K, V, A>::range", "bm_range"),
    ("std::collections::BTreeMap::<K, V, A>::range_mut", "bm_range_mut"),
    ("std::collections::BTreeMap::<K, V, A>::split_off", "bm_split_off"),
    ("std::collections::BTreeMap::<K, V, A>::append", "bm_append"),
    ("std::collections::BTreeSet::<T, A>::range", "bs_range"),
    ("std::collections::BTreeSet::<T, A>::split_off", "bs_split_off"),
    ("std::collections::BTreeSet::<T, A>::append", "bs_append"),
    ("std::collections::BTreeSet::<T, A>::retain", "bs_retain"),
    ("std::collections::BTreeSet::<T, A>::pop_last", "bs_pop_last"),
    ("std::collections::BTreeSet::<T, A>::take", "bs_take"),
    ("std::collections::BTreeSet::<T, A>::get", "bs_get"),
    ("std::collections::HashSet::<T, S, A>::retain", "hs_retain"),
    ("std::collections::HashSet::<T, S, A>::take", "hs_take"),
    ("std::collections::HashSet::<T, S, A>::get", "hs_get"),
    ("std::collections::VecDeque::<T, A>::range", "vd_range"),
    ("std::collections::VecDeque::<T, A>::range_mut", "vd_range_mut"),
    ("std::collections::VecDeque::<T, A>::rotate_left", "vd_rotate_left"),
    ("std::collections::VecDeque::<T, A>::rotate_right", "vd_rotate_right"),
    ("std::collections::VecDeque::<T, A>::pop_front_if", "vd_pop_front_if"),
    ("std::collections::VecDeque::<T, A>::pop_back_if", "vd_pop_back_if"),
    ("std::collections::VecDeque::<T, A>::retain_mut", "vec_retain_mut"),
    ("std::collections::VecDeque::<T, A>::resize_with", "vec_resize_with"),
    ("std::vec::Vec::<T, A>::extract_if", "vec_extract_if"),
    ("std::slice::<impl [T]>::as_chunks", "slice_as_chunks"),
    ("std::slice::<impl [T]>::as_rchunks", "slice_as_rchunks"),
    ("std::slice::<impl [[T; N]]>::as_flattened", "slice_as_flattened"),
    ("std::str::<impl str>::eq_ignore_ascii_case", "str_eq_ignore_ascii_case"),
];

fn opt_w(ret: Ty) -> u32 {
    discr_ty_width(ret)
}
pub fn option(w: u32, some: Bdd, v: Value) -> Value {
    Value::Enum(Rc::new(EnumV {
        discr: Int::bool(some).zext(w),
        vars: vec![Some(Rc::new(vec![])), if some == F { None } else { Some(Rc::new(vec![v])) }],
    }))
}
fn int(v: &Value) -> R<&Int> {
    match v {
        Value::Int(i) => Ok(i),
        Value::Bad(s) => und(format!("unknown integer: {s}")),
        _ => und(format!("integer expected, found {}", short(v))),
    }
}
fn ptr(v: &Value) -> R<&Rc<Vec<(Bdd, Target)>>> {
    match v {
        Value::Ptr(l) => Ok(l),
        Value::Bad(s) => und(format!("unknown pointer: {s}")),
        _ => und(format!("pointer expected, found {}", short(v))),
    }
}

impl Interp {
    fn upd_vec(
        &mut self,
        st: &mut State,
        p: &Value,
        f: &mut dyn FnMut(&mut Interp, &mut State, VecV) -> R<(VecV, Value)>,
    ) -> R<Value> {
        let l = ptr(p)?.clone();
        let mut acc: Option<Value> = None;
        let pc0 = st.pc;
        for (g, t) in l.iter() {
            let pc = bdd::and(*g, pc0);
            if pc == F {
                continue;
            }
            let v = self.load1(st, t)?;
            let Value::Vec(v) = v else {
                return und(format!("vector operation on {}", short(&v)));
            };
            let old = Value::Vec(v.clone());
            let mut s = st.clone();
            s.pc = pc;
            let (n, r) = f(self, &mut s, (*v).clone())?;
            if l.len() == 1 {
                st.pc = s.pc;
                self.store1(st, t, Value::Vec(Rc::new(n)))?;
                return Ok(r);
            }
            // paths on which the operation panicked are removed
            st.pc = bdd::diff(st.pc, bdd::diff(pc, s.pc));
            self.store1(st, t, ite(*g, &Value::Vec(Rc::new(n)), &old))?;
            acc = Some(match acc {
                None => r,
                Some(a) => ite(*g, &r, &a),
            });
        }
        acc.ok_or(Stop::Dead)
    }
    /// element at a symbolic position
    fn vec_at(&self, st: &State, v: &VecV, i: &Int) -> R<Value> {
        let vs = i.values(st.pc, 5000).ok_or(Stop::Und("vector index".into()))?;
        let mut acc: Option<Value> = None;
        for (k, g) in vs {
            let x = v.elems.get(k as usize).cloned().unwrap_or(Value::Uninit);
            acc = Some(match acc {
                None => x,
                Some(a) => ite(bdd::restrict(g, st.pc), &x, &a),
            });
        }
        acc.ok_or(Stop::Dead)
    }

    #[allow(clippy::too_many_arguments)]
    pub fn native(
        &mut self,
        st: &mut State,
        name: &str,
        def: FnDef,
        gargs: &GenericArgs,
        targs: &[Ty],
        args: &[Value],
        tys: &[Ty],
        ret: Ty,
        first: bool,
    ) -> R<Option<Value>> {
        let _ = def;
        if std::env::var("UR20_NAMES").is_ok() {
            eprintln!("NAME {name} {targs:?} first={first}");
        }
        // --- panics
        if let TyKind::RigidTy(RigidTy::Never) = &*kind(ret) {
            if name == "rt::stop" {
                return Err(Stop::Dead);
            } else {
                let what = panic_text(name, args);
                self.oblige("panic", &what, st.pc, false);
                return Err(Stop::Dead);
            }
        }
        if let Some(m) = name.strip_prefix("rt::") {
            return self.rt(st, m, targs, args, ret).map(Some);
        }
        if !name.starts_with("std::") && !name.starts_with('<') {
            return Ok(None);
        }
        if name == "std::iter::Iterator::nth"
            && targs.first().copied().and_then(adt).is_some_and(|(d, _)| matches!(&*adt_name(&d), "std::slice::Iter" | "std::slice::IterMut"))
        {
            if let Some(n) = int(&args[1])?.konst() {
                return self.slice_nth(st, &args[0], n as usize, ret).map(Some);
            }
        }
        // --- models written in Rust
        if let Some(m) = model_for(name, targs)
            .or_else(|| INHERENT.iter().find(|x| x.0 == name).map(|x| x.1))
        {
            let Some(d) = self.model_fns.get(m).copied() else { return und(format!("model {m} missing")) };
            let ga = GenericArgs(
                gargs.0.iter().filter(|x| !matches!(x, GenericArgKind::Lifetime(_))).cloned().collect(),
            );
            self.stats.models.insert(format!("{name} -> models::{m}"));
            if self.resolve_inst(d, &ga).is_none() {
                return und(format!("model {m} does not fit {name}"));
            }
            return self.call_def(st, d, &ga, args.to_vec(), tys, ret).map(Some);
        }
        let s0 = targs.first().copied();
        let is = |n: &str| s0.is_some_and(|t| adt_is(t, n));
        let name = &*match name.strip_prefix("std::collections::VecDeque::<T, A>::") {
            Some("push_back") => "std::vec::Vec::<T, A>::push".to_string(),
            Some("pop_back") => "std::vec::Vec::<T, A>::pop".to_string(),
            Some("len") => "std::vec::Vec::<T, A>::len".to_string(),
            Some("is_empty") => "std::vec::Vec::<T, A>::is_empty".to_string(),
            Some("clear") => "std::vec::Vec::<T, A>::clear".to_string(),
            Some("truncate") => "std::vec::Vec::<T, A>::truncate".to_string(),
            Some("reserve") => "std::vec::Vec::<T, A>::reserve".to_string(),
            _ => match name {
                "std::collections::BTreeMap::<K, V, A>::len" | "std::collections::BTreeSet::<T, A>::len" => {
                    "std::vec::Vec::<T, A>::len".to_string()
                }
                "std::collections::BTreeMap::<K, V, A>::is_empty" | "std::collections::BTreeSet::<T, A>::is_empty" => {
                    "std::vec::Vec::<T, A>::is_empty".to_string()
                }
                "std::collections::BTreeMap::<K, V, A>::clear" | "std::collections::BTreeSet::<T, A>::clear" => {
                    "std::vec::Vec::<T, A>::clear".to_string()
                }
                _ => name.to_string(),
            },
        };
        let slice_iter = s0.and_then(adt).is_some_and(|(d, _)| {
            matches!(
                &*adt_name(&d),
                "std::slice::Iter"
                    | "std::slice::IterMut"
                    | "std::collections::vec_deque::Iter"
                    | "std::collections::vec_deque::IterMut"
                    | "std::collections::hash_set::Iter"
                    | "std::collections::btree_set::Iter"
                    | "std::collections::btree_set::Range"
            )
        });
        let keyed_iter = s0.and_then(adt).is_some_and(|(d, _)| {
            let n = adt_name(&d);
            (n.starts_with("std::collections::hash_map::") || n.starts_with("std::collections::btree_map::"))
                && matches!(n.rsplit("::").next(), Some("Iter" | "IterMut" | "Keys" | "Values" | "ValuesMut" | "Range" | "RangeMut"))
        });
        let r = match name {
            // --- waiting and diagnostic output change no value (their effects are a rule of C21)
            "std::thread::yield_now" | "std::thread::sleep" | "std::hint::spin_loop" | "std::io::_print" | "std::io::_eprint" => {
                Value::unit()
            }
            // --- formatting is irrelevant for the properties
            n if n.starts_with("std::fmt::") => match &*kind(ret) {
                TyKind::RigidTy(RigidTy::Tuple(t)) if t.is_empty() => Value::unit(),
                _ => bad("formatted text"),
            },
            "std::string::ToString::to_string" => {
                if is("std::string::String") || s0.is_some_and(is_slice_like) {
                    return Ok(None);
                }
                bad("formatted text")
            }
            "std::mem::forget" => Value::unit(),
            "std::mem::drop" => match targs.first().and_then(|t| self.destructor(*t)) {
                None => Value::unit(),
                Some(_) => return Ok(None),
            },
            n if n.starts_with("std::ptr::drop_in_place") || n.starts_with("std::ptr::drop_glue") => {
                if let Some((t, d)) = targs.first().and_then(|t| self.destructor(*t).map(|d| (*t, d))) {
                    self.run_destructor(st, t, d, args[0].clone())?;
                }
                Value::unit()
            }
            // --- boxes
            "std::boxed::Box::<T>::new" => {
                Value::Boxed(Rc::new(BoxV { inner: args[0].clone(), meta: Meta::None }))
            }
            "std::boxed::Box::<T>::new_uninit" => {
                Value::Boxed(Rc::new(BoxV { inner: Value::Uninit, meta: Meta::None }))
            }
            "std::boxed::box_assume_init_into_vec_unsafe" | "std::slice::<impl [T]>::into_vec" | "std::slice::hack::into_vec" => {
                let Value::Boxed(b) = &args[0] else { return und("box to vector") };
                // the array lies in the (union) MaybeUninit<[T; N]>, wrapped in plain structs
                let mut inner = b.inner.clone();
                let mut t = tys.first().and_then(|t| adt(*t)).and_then(|(_, a)| ty_args(&a).first().copied());
                while let Some(x) = t.filter(|x| array_len(*x).is_none() && !is_slice_like(*x)) {
                    if is_union(x) {
                        t = union_field(x);
                        continue;
                    }
                    let Some((i, f)) = sole_field(x) else { return und("box to vector") };
                    let Value::Agg(a) = &inner else { return und("box to vector") };
                    let Some(v) = a.get(i) else { return und("box to vector") };
                    inner = v.clone();
                    t = Some(f);
                }
                let Value::Agg(a) = &inner else { return und("box to vector") };
                if let Meta::Len(l) = &b.meta {
                    if l.konst() != Some(a.len() as u128) {
                        return und("box to vector length");
                    }
                }
                Value::vec(a.to_vec())
            }
            "std::convert::TryFrom::try_from"
                if s0.is_some_and(|t| array_len(t).is_some()) && targs.get(1).is_some_and(|t| adt_is(*t, "std::vec::Vec")) =>
            {
                let n = array_len(s0.unwrap()).unwrap();
                let Value::Vec(v) = &args[0] else { return und("vector to array") };
                let ok = v.len.eq(&Int::usize(n));
                let arr: Vec<Value> = (0..n).map(|k| v.elems.get(k).cloned().unwrap_or(Value::Uninit)).collect();
                let (d, _) = adt(ret).ok_or(Stop::Und("vector to array".into()))?;
                let w = discr_ty_width(ret);
                Value::Enum(Rc::new(EnumV {
                    discr: ite_int(bdd::restrict(ok, st.pc), &Int::c(w, discr_of(&d, 0)), &Int::c(w, discr_of(&d, 1))),
                    vars: vec![
                        Some(Rc::new(vec![Value::agg(arr)])),
                        Some(Rc::new(vec![args[0].clone()])),
                    ],
                }))
            }
            "std::vec::Vec::<T, A>::into_boxed_slice" => {
                let Value::Vec(v) = &args[0] else { return und("boxed slice") };
                let Some(n) = v.len.konst() else { return und("boxed slice of unknown length") };
                Value::Boxed(Rc::new(BoxV {
                    inner: Value::agg(v.elems[..n as usize].to_vec()),
                    meta: Meta::Len(Int::usize(n as usize)),
                }))
            }
            "std::convert::AsRef::as_ref" | "std::borrow::Borrow::borrow" | "std::convert::AsMut::as_mut" | "std::borrow::BorrowMut::borrow_mut"
                if is("std::boxed::Box") =>
            {
                self.box_deref(st, &args[0])?
            }
            "std::ops::Deref::deref" | "std::ops::DerefMut::deref_mut" if is("std::boxed::Box") => {
                self.box_deref(st, &args[0])?
            }
            // --- slices
            "std::slice::Iter::<'a, T>::new" | "std::slice::IterMut::<'a, T>::new"
            | "std::slice::<impl [T]>::iter" | "std::slice::<impl [T]>::iter_mut" => {
                Value::agg(vec![args[0].clone()])
            }
            "std::iter::IntoIterator::into_iter"
                if s0.and_then(pointee).is_some_and(is_slice_like) =>
            {
                Value::agg(vec![args[0].clone()])
            }
            "std::iter::Iterator::next" if slice_iter => {
                self.slice_next(st, &args[0], false, ret)?
            }
            "std::iter::DoubleEndedIterator::next_back"
                if slice_iter =>
            {
                self.slice_next(st, &args[0], true, ret)?
            }
            "std::iter::Iterator::size_hint" if slice_iter || keyed_iter => {
                let l = self.slice_iter_len(st, &args[0])?;
                Value::agg(vec![Value::Int(l.clone()), option(64, T, Value::Int(l))])
            }
            "std::iter::IntoIterator::into_iter" if s0.is_some_and(|t| array_len(t).is_some()) => {
                let Value::Agg(a) = &args[0] else { return und("iteration over an array") };
                Value::vec(a.to_vec())
            }
            "std::iter::Iterator::size_hint"
                if s0.is_some_and(container) => {
                let Value::Vec(v) = self.load(st, ptr(&args[0])?)? else { return und("size hint") };
                Value::agg(vec![Value::Int(v.len.clone()), option(64, T, Value::Int(v.len.clone()))])
            }
            "std::iter::ExactSizeIterator::len" if slice_iter || keyed_iter => {
                Value::Int(self.slice_iter_len(st, &args[0])?)
            }
            "std::iter::ExactSizeIterator::len" if s0.is_some_and(container) => {
                let Value::Vec(v) = self.load(st, ptr(&args[0])?)? else { return und("len") };
                Value::Int(v.len.clone())
            }
            "std::clone::Clone::clone" if slice_iter || keyed_iter => self.load(st, ptr(&args[0])?)?,
            "std::convert::From::from"
                if (is("std::vec::Vec") && targs.get(1).is_some_and(|t| adt_is(*t, "std::collections::VecDeque")))
                    || (is("std::collections::VecDeque") && targs.get(1).is_some_and(|t| adt_is(*t, "std::vec::Vec"))) =>
            {
                args[0].clone()
            }
            "std::slice::Iter::<'a, T>::as_slice" | "std::slice::Iter::<'a, T>::make_slice" => {
                let Value::Agg(a) = self.load(st, ptr(&args[0])?)? else { return und("iter") };
                self.slice_iter(st, &a)?
            }
            "std::slice::<impl [T]>::len" | "std::str::<impl str>::len" => {
                Value::Int(meta_len_pc(ptr(&args[0])?, st.pc)?)
            }
            "std::slice::<impl [T]>::is_empty" | "std::str::<impl str>::is_empty" => {
                let l = meta_len_pc(ptr(&args[0])?, st.pc)?;
                Value::bool(l.eq(&Int::usize(0)))
            }
            "std::str::<impl str>::as_bytes" | "std::str::from_utf8_unchecked"
            | "std::string::String::as_str" => {
                if name.ends_with("as_str") {
                    let p = self.project(&args[0], &[Elem::Field(0)])?;
                    self.vec_slice(st, &p)?
                } else {
                    args[0].clone()
                }
            }
            "std::ops::Deref::deref" | "std::ops::DerefMut::deref_mut" if is("std::string::String") => {
                let p = self.project(&args[0], &[Elem::Field(0)])?;
                self.vec_slice(st, &p)?
            }
            "std::string::String::new" | "std::string::String::with_capacity" => Value::agg(vec![Value::vec(vec![])]),
            // --- vectors
            "std::ops::Deref::deref" | "std::ops::DerefMut::deref_mut" if s0.is_some_and(container) => {
                self.vec_slice(st, &args[0])?
            }
            "std::vec::Vec::<T, A>::as_slice" | "std::vec::Vec::<T, A>::as_mut_slice" => {
                self.vec_slice(st, &args[0])?
            }
            "std::convert::AsRef::as_ref" | "std::borrow::Borrow::borrow" | "std::convert::AsMut::as_mut"
                if is("std::vec::Vec") && pointee(ret).is_some_and(is_slice_like) =>
            {
                self.vec_slice(st, &args[0])?
            }
            "std::iter::IntoIterator::into_iter"
                if is("std::vec::Vec") || is("std::collections::VecDeque") || is("std::collections::BTreeMap")
                    || is("std::collections::BTreeSet") =>
            {
                args[0].clone()
            }
            "std::iter::IntoIterator::into_iter"
                if s0.and_then(pointee).is_some_and(|t| adt_is(t, "std::vec::Vec")) =>
            {
                Value::agg(vec![self.vec_slice(st, &args[0])?])
            }
            "std::vec::Vec::<T>::new" | "std::vec::Vec::<T>::with_capacity"
            | "std::vec::Vec::<T, A>::new_in" | "std::vec::Vec::<T, A>::with_capacity_in"
            | "std::collections::HashMap::<K, V>::new"
            | "std::collections::HashMap::<K, V>::with_capacity"
            | "std::raw_vec::RawVecInner::<A>::with_capacity_in"
            | "std::raw_vec::RawVecInner::<A>::new_in"
            | "std::raw_vec::RawVec::<T, A>::with_capacity_in"
            | "std::raw_vec::RawVec::<T, A>::new_in"
            | "std::collections::HashSet::<T>::new"
            | "std::collections::HashSet::<T>::with_capacity"
            | "std::collections::BTreeMap::<K, V>::new"
            | "std::collections::BTreeSet::<T>::new"
            | "std::collections::VecDeque::<T>::new"
            | "std::collections::VecDeque::<T>::with_capacity" => Value::vec(vec![]),
            "std::default::Default::default" if s0.is_some_and(container) => Value::vec(vec![]),
            "std::vec::Vec::<T, A>::reserve" | "std::vec::Vec::<T, A>::reserve_exact"
            | "std::vec::Vec::<T, A>::shrink_to_fit" => Value::unit(),
            "std::vec::Vec::<T, A>::len" | "std::vec::Vec::<T, A>::is_empty" => {
                let v = self.load(st, ptr(&args[0])?)?;
                let Value::Vec(v) = v else { return und(format!("len of {}", short(&v))) };
                if name.ends_with("len") {
                    Value::Int(v.len.clone())
                } else {
                    Value::bool(v.len.eq(&Int::usize(0)))
                }
            }
            "std::vec::Vec::<T, A>::push" => {
                let x = args[1].clone();
                self.upd_vec(st, &args[0], &mut |_, st, mut v| {
                    let vs = v.len.values(st.pc, 5000).ok_or(Stop::Und("vector length".into()))?;
                    for (k, g) in vs {
                        let k = k as usize;
                        if v.elems.len() <= k {
                            v.elems.resize(k + 1, Value::Uninit);
                        }
                        let g = bdd::restrict(g, st.pc);
                        v.elems[k] = ite(g, &x, &v.elems[k]);
                    }
                    v.len = v.len.add(&Int::usize(1));
                    Ok((v, Value::unit()))
                })?
            }
            "std::vec::Vec::<T, A>::pop" => {
                let w = opt_w(ret);
                self.upd_vec(st, &args[0], &mut |this, st, mut v| {
                    let e = v.len.eq(&Int::usize(0));
                    let some = bdd::not(e);
                    let mut s = st.clone();
                    s.pc = bdd::and(st.pc, some);
                    if s.pc == F {
                        return Ok((v, option(w, F, Value::Uninit)));
                    }
                    let nl = ite_int(some, &v.len.sub(&Int::usize(1)), &v.len);
                    let x = this.vec_at(&s, &v, &nl)?;
                    v.len = nl;
                    Ok((v, option(w, some, x)))
                })?
            }
            "std::vec::Vec::<T, A>::clear" => self.upd_vec(st, &args[0], &mut |_, _, mut v| {
                v.elems.clear();
                v.len = Int::usize(0);
                Ok((v, Value::unit()))
            })?,
            "std::vec::Vec::<T, A>::truncate" => {
                let n = int(&args[1])?.clone();
                self.upd_vec(st, &args[0], &mut |_, _, mut v| {
                    let c = n.ult(&v.len);
                    v.len = ite_int(c, &n, &v.len);
                    trim(&mut v);
                    Ok((v, Value::unit()))
                })?
            }
            "std::vec::Vec::<T, A>::remove" => {
                let i = int(&args[1])?.clone();
                self.upd_vec(st, &args[0], &mut |this, st, mut v| {
                    let inb = i.ult(&v.len);
                    this.oblige("panic", "removal index out of bounds", bdd::diff(st.pc, inb), false);
                    st.pc = bdd::and(st.pc, inb);
                    if st.pc == F {
                        return Ok((v, Value::Uninit));
                    }
                    let x = this.vec_at(st, &v, &i)?;
                    let n = v.elems.len();
                    for j in 0..n.saturating_sub(1) {
                        let keep = Int::usize(j).ult(&i);
                        v.elems[j] = ite(keep, &v.elems[j], &v.elems[j + 1]);
                    }
                    v.len = v.len.sub(&Int::usize(1));
                    trim_pc(&mut v, st.pc);
                    Ok((v, x))
                })?
            }
            "std::vec::Vec::<T, A>::insert" => {
                let i = int(&args[1])?.clone();
                let x = args[2].clone();
                self.upd_vec(st, &args[0], &mut |this, st, mut v| {
                    let over = v.len.ult(&i);
                    this.oblige("panic", "insertion index out of bounds", bdd::and(st.pc, over), false);
                    st.pc = bdd::diff(st.pc, over);
                    v.elems.push(Value::Uninit);
                    for j in (0..v.elems.len()).rev() {
                        let before = Int::usize(j).ult(&i);
                        let at = i.eq(&Int::usize(j));
                        let sh = if j == 0 { Value::Uninit } else { v.elems[j - 1].clone() };
                        v.elems[j] = ite(before, &v.elems[j], &ite(at, &x, &sh));
                    }
                    v.len = v.len.add(&Int::usize(1));
                    Ok((v, Value::unit()))
                })?
            }
            _ => {
                if first && name.starts_with("std::sync::Once::call_once") {
                    // run the initialiser (lazily initialised constant)
                    let fty = targs.last().copied().ok_or(Stop::Und("call_once".into()))?;
                    let d = self.model_fns.get("call_once").copied().ok_or(Stop::Und("model".into()))?;
                    let ga = GenericArgs(vec![GenericArgKind::Type(fty)]);
                    return self.call_def(st, d, &ga, vec![args[1].clone()], &tys[1..], ret).map(Some);
                }
                return Ok(None);
            }
        };
        Ok(Some(r))
    }

    pub fn project(&self, p: &Value, path: &[Elem]) -> R<Value> {
        let l = ptr(p)?;
        Ok(Value::Ptr(Rc::new(
            l.iter()
                .map(|(g, t)| {
                    let mut t = t.clone();
                    t.path.extend_from_slice(path);
                    t.meta = Meta::None;
                    (*g, t)
                })
                .collect(),
        )))
    }
    fn box_deref(&self, st: &State, p: &Value) -> R<Value> {
        let q = self.project(p, &[Elem::Field(0)])?;
        self.load(st, ptr(&q)?)
    }
    fn vec_slice(&self, st: &State, p: &Value) -> R<Value> {
        let l = ptr(p)?;
        let mut out = vec![];
        for (g, t) in l.iter() {
            if l.len() > 1 && bdd::and(*g, st.pc) == F {
                continue;
            }
            let v = self.load1(st, t)?;
            let Value::Vec(v) = v else { return und(format!("slice of {}", short(&v))) };
            let mut t = t.clone();
            t.path.push(Elem::Index(0));
            t.meta = Meta::Len(v.len.clone());
            out.push((*g, t));
        }
        if out.is_empty() {
            return Err(Stop::Dead);
        }
        Ok(Value::Ptr(Rc::new(out)))
    }
    /// The pointer of a slice iterator.  Library code inlined into another
    /// function builds iterators from the start and the end pointer.
    fn slice_iter(&self, st: &State, a: &[Value]) -> R<Value> {
        let [p, e, ..] = a else { return Ok(a[0].clone()) };
        let mut p = p.clone();
        while let Value::Agg(x) = &p {
            let Some(x) = x.first() else { return und("slice iterator start") };
            p = x.clone();
        }
        let (l, e) = (ptr(&p)?.clone(), ptr(e)?.clone());
        let mut out = vec![];
        for (g, t) in l.iter() {
            let Some(Elem::Index(i)) = t.path.last() else { return und("slice iterator start") };
            let mut n: Option<Int> = None;
            for (h, u) in e.iter() {
                let gh = bdd::and(bdd::and(*g, *h), st.pc);
                if gh == F {
                    continue;
                }
                let Some(Elem::Index(j)) = u.path.last() else { return und("slice iterator end") };
                if u.root != t.root || u.path[..u.path.len() - 1] != t.path[..t.path.len() - 1] || j < i {
                    return und("slice iterator over unrelated pointers");
                }
                let d = Int::usize(j - i);
                n = Some(match n {
                    None => d,
                    Some(o) => ite_int(bdd::restrict(*h, bdd::and(*g, st.pc)), &d, &o),
                });
            }
            let Some(n) = n else { continue };
            let mut t = t.clone();
            t.meta = Meta::Len(n);
            out.push((*g, t));
        }
        if out.is_empty() {
            return Err(Stop::Dead);
        }
        Ok(Value::Ptr(Rc::new(out)))
    }
    fn slice_iter_len(&self, st: &State, p: &Value) -> R<Int> {
        let v = self.load(st, ptr(p)?)?;
        let Value::Agg(a) = v else { return und("slice iterator") };
        meta_len_pc(ptr(&self.slice_iter(st, &a)?)?, st.pc)
    }
    fn slice_next(&mut self, st: &mut State, p: &Value, back: bool, ret: Ty) -> R<Value> {
        let pl = ptr(p)?.clone();
        let v = self.load(st, &pl)?;
        let Value::Agg(a) = v else { return und(format!("slice iterator: {}", short(&v))) };
        let l = ptr(&self.slice_iter(st, &a)?)?.clone();
        let mut items = vec![];
        let mut rest = vec![];
        let mut some = F;
        for (g, t) in l.iter() {
            let gp = bdd::and(*g, st.pc);
            if l.len() > 1 && gp == F {
                continue;
            }
            let Meta::Len(n) = &t.meta else { return und("slice iterator metadata") };
            let ne = bdd::not(n.eq(&Int::usize(0)));
            if bdd::and(gp, ne) != F {
                some = bdd::or(some, bdd::and(*g, ne));
                let n1 = ite_int(ne, &n.sub(&Int::usize(1)), &Int::usize(0));
                let mut thin = t.clone();
                thin.meta = Meta::None;
                if back {
                    let mut s = st.clone();
                    s.pc = bdd::and(gp, ne);
                    let q = self.ptr_offset(&s, &Value::ptr(thin), &n1, false)?;
                    for (h, x) in ptr(&q)?.iter() {
                        ptr_push(&mut items, bdd::and(*g, *h), x);
                    }
                    let mut r = t.clone();
                    r.meta = Meta::Len(n1);
                    rest.push((*g, r));
                } else {
                    ptr_push(&mut items, *g, &thin);
                    let mut r = t.clone();
                    if let Some(Elem::Index(i)) = r.path.last_mut() {
                        *i += 1;
                    } else {
                        return und("slice iterator path");
                    }
                    r.meta = Meta::Len(n1);
                    rest.push((*g, r));
                }
            } else {
                rest.push((*g, t.clone()));
            }
        }
        if items.len() == 1 {
            items[0].0 = T;
        }
        if rest.is_empty() {
            return Err(Stop::Dead);
        }
        self.store(st, &pl, Value::agg(vec![Value::Ptr(Rc::new(rest))]))?;
        let some = bdd::restrict(some, st.pc);
        Ok(option(opt_w(ret), some, Value::Ptr(Rc::new(items))))
    }

    /// `nth` of a slice iterator: one step, however far it reaches
    fn slice_nth(&mut self, st: &mut State, p: &Value, n: usize, ret: Ty) -> R<Value> {
        let pl = ptr(p)?.clone();
        let v = self.load(st, &pl)?;
        let Value::Agg(a) = v else { return und(format!("slice iterator: {}", short(&v))) };
        let l = ptr(&self.slice_iter(st, &a)?)?.clone();
        let mut items = vec![];
        let mut rest = vec![];
        let mut some = F;
        for (g, t) in l.iter() {
            let gp = bdd::and(*g, st.pc);
            if l.len() > 1 && gp == F {
                continue;
            }
            let Meta::Len(len) = &t.meta else { return und("slice iterator metadata") };
            let has = Int::usize(n).ult(len);
            let yes = bdd::and(gp, has) != F;
            if yes {
                some = bdd::or(some, bdd::and(*g, has));
                let mut thin = t.clone();
                thin.meta = Meta::None;
                let mut r = t.clone();
                let Some(Elem::Index(i)) = thin.path.last_mut() else { return und("slice iterator path") };
                *i += n;
                let Some(Elem::Index(i)) = r.path.last_mut() else { return und("slice iterator path") };
                *i += n + 1;
                r.meta = Meta::Len(len.sub(&Int::usize(n + 1)));
                ptr_push(&mut items, bdd::and(*g, has), &thin);
                rest.push((bdd::and(*g, has), r));
            }
            if bdd::diff(gp, has) != F {
                let mut r = t.clone();
                r.meta = Meta::Len(Int::usize(0));
                rest.push((if yes { bdd::diff(*g, has) } else { *g }, r));
            }
        }
        if items.len() == 1 {
            items[0].0 = T;
        }
        if rest.is_empty() {
            return Err(Stop::Dead);
        }
        if rest.len() == 1 {
            rest[0].0 = T;
        }
        self.store(st, &pl, Value::agg(vec![Value::Ptr(Rc::new(rest))]))?;
        let some = bdd::restrict(some, st.pc);
        Ok(option(opt_w(ret), some, Value::Ptr(Rc::new(items))))
    }

    // ----------------------------------------------- client-side primitives

    fn rt(&mut self, st: &mut State, m: &str, targs: &[Ty], args: &[Value], ret: Ty) -> R<Value> {
        let m = m.split("::<").next().unwrap();
        match m {
            "any" => {
                let n = self.const_str(st, &args[0])?;
                let mut k = 0;
                let v = self.any(&n, ret, &mut k, st)?;
                self.inputs.push((n, v.clone()));
                Ok(v)
            }
            // a value with no known relation to anything
            "unknown_f32" => {
                let n = self.const_str(st, &args[0])?;
                Ok(Value::Float(Rc::new(FloatV::var(32, &n))))
            }
            "part" => {
                let n = int(&args[0])?.konst().ok_or(Stop::Und("part".into()))? as usize;
                self.parts = n;
                if self.part >= n {
                    return Err(Stop::Dead);
                }
                Ok(Value::usize(self.part))
            }
            "length" => {
                let max = int(&args[0])?.konst().ok_or(Stop::Und("length".into()))? as usize;
                let n = self.const_str(st, &args[1])?;
                let k = self.choices.len();
                self.choices.push(max + 1);
                if let Some(c) = self.path.get(k) {
                    if *c > max {
                        return und("case split out of range");
                    }
                    return Ok(Value::usize(*c));
                }
                let w = usize::BITS - max.leading_zeros();
                let bits: Vec<Bdd> = (0..w).rev().map(|i| bdd::new_var(format!("{n}#{i}"), false)).collect();
                let i = Int::bits(bits.into_iter().rev().collect()).zext(64);
                st.pc = bdd::diff(st.pc, Int::usize(max).ult(&i));
                let v = Value::Int(i);
                self.inputs.push((n, v.clone()));
                Ok(v)
            }
            "thorough" => Ok(Value::bool(if self.thorough { T } else { F })),
            "assume" => {
                let c = int(&args[0])?.as_bool();
                st.pc = bdd::and(st.pc, c);
                if st.pc == F {
                    return Err(Stop::Dead);
                }
                Ok(Value::unit())
            }
            "require" => {
                let n = self.const_str(st, &args[1])?;
                let c = match &args[0] {
                    Value::Int(i) => i.as_bool(),
                    Value::Bad(s) => return und(format!("rule '{n}' on unknown value: {s}")),
                    _ => return und("require"),
                };
                self.oblige("rule", &n, bdd::diff(st.pc, c), false);
                Ok(Value::unit())
            }
            // |a - b| <= tol * max(|a|, |b|, scale)
            "require_close" => {
                let n = self.const_str(st, &args[4])?;
                let (Value::Float(a), Value::Float(b), Value::Float(t), Value::Float(s)) =
                    (&args[0], &args[1], &args[2], &args[3])
                else {
                    return und(format!("rule '{n}' on unknown value"));
                };
                let (FLeaf::C(t), 1) = (&t.l[0].1, t.l.len()) else { return und("tolerance") };
                let (mut bad, mut op) = (bdd::F, false);
                for (g, s) in &s.l {
                    let FLeaf::C(s) = s else { return und("scale") };
                    let (x, o) = a.far(b, bdd::and(*g, st.pc), f64::from_bits(*t), f64::from_bits(*s));
                    bad = bdd::or(bad, bdd::and(*g, x));
                    op |= o;
                }
                self.oblige("rule", &n, bdd::and(bad, st.pc), op);
                Ok(Value::unit())
            }
            "cast" => Ok(args[0].clone()),
            // (taken range, rest) of a vector, for drain/split
            "take_range" => {
                let (s, e) = (int(&args[1])?.clone(), int(&args[2])?.clone());
                self.upd_vec(st, &args[0], &mut |_, st, v| {
                    let sv = s.values(st.pc, 300).ok_or(Stop::Und("range".into()))?;
                    let ev = e.values(st.pc, 300).ok_or(Stop::Und("range".into()))?;
                    let mut acc: Option<(Value, Value)> = None;
                    for (a, g) in &sv {
                        for (b, h) in &ev {
                            let gh = bdd::and(bdd::and(*g, *h), st.pc);
                            if gh == F || b < a {
                                continue;
                            }
                            let (a, b) = (*a as usize, *b as usize);
                            let get = |k: usize| v.elems.get(k).cloned().unwrap_or(Value::Uninit);
                            let taken = Value::vec((a..b).map(get).collect());
                            let mut r: Vec<Value> = (0..a).map(get).collect();
                            r.extend((b..v.elems.len().max(b)).map(get));
                            let rest = Value::Vec(Rc::new(VecV {
                                elems: r,
                                len: v.len.sub(&Int::usize(b - a)),
                            }));
                            acc = Some(match acc {
                                None => (taken, rest),
                                Some((t0, r0)) => {
                                    let g = bdd::restrict(gh, st.pc);
                                    (ite(g, &taken, &t0), ite(g, &rest, &r0))
                                }
                            });
                        }
                    }
                    let (t, r) = acc.ok_or(Stop::Dead)?;
                    let Value::Vec(r) = r else { unreachable!() };
                    Ok(((*r).clone(), t))
                })
            }
            "attempt" => {
                let fty = targs.first().copied().ok_or(Stop::Und("attempt".into()))?;
                let d = self.model_fns.get("call_bool").copied().ok_or(Stop::Und("model".into()))?;
                let ga = GenericArgs(vec![GenericArgKind::Type(fty)]);
                let mut s = st.clone();
                self.quiet += 1;
                let before = self.lost;
                let r = self.call_def(&mut s, d, &ga, vec![args[0].clone()], &[fty], ret);
                self.quiet -= 1;
                // what was given up may have succeeded
                if self.lost != before {
                    return und("attempt of something unsupported");
                }
                match r {
                    Ok(Value::Int(i)) => {
                        let b = bdd::and(s.pc, i.as_bool());
                        Ok(Value::bool(bdd::restrict(b, st.pc)))
                    }
                    Ok(_) => und("attempt: unknown result"),
                    Err(Stop::Dead) => Ok(Value::bool(F)),
                    Err(e) => Err(e),
                }
            }
            "frozen" => {
                let Value::Vec(v) = &args[0] else { return und("slice of a vector") };
                Ok(Value::ptr(Target {
                    root: Root::Const(Rc::new(args[0].clone())),
                    path: vec![Elem::Index(0)],
                    meta: Meta::Len(v.len.clone()),
                }))
            }
            // how many elements the containers within a value hold at most
            "footprint" => {
                let v = self.load(st, ptr(&args[0])?)?;
                Ok(Value::usize(footprint(&v, st.pc)))
            }
            "unsupported" => {
                let n = self.const_str(st, &args[0])?;
                und(n)
            }
            "trace" => {
                eprintln!("TRACE pc={:?} {:?}", st.pc, args[0]);
                if let Ok(l) = ptr(&args[0]) {
                    eprintln!("  -> {:?}", self.load(st, l)?);
                }
                Ok(Value::unit())
            }
            _ => und(format!("unknown primitive rt::{m} {targs:?}")),
        }
    }
    pub fn const_str(&self, st: &State, p: &Value) -> R<String> {
        let l = ptr(p)?;
        if l.len() != 1 {
            return und("name is not constant");
        }
        let Meta::Len(n) = &l[0].1.meta else { return und("name") };
        let n = n.konst().ok_or(Stop::Und("name".into()))? as usize;
        let mut s = String::new();
        for (_, t) in (0..n).map(|k| adv(l, k).map(|v| v[0].clone())).collect::<R<Vec<_>>>()? {
            let v = self.load1(st, &t)?;
            let c = int(&v)?.konst().ok_or(Stop::Und("name".into()))?;
            s.push(c as u8 as char);
        }
        Ok(s)
    }
    fn any(&mut self, name: &str, t: Ty, k: &mut u32, st: &mut State) -> R<Value> {
        if let Some((w, _)) = int_info(t) {
            let w2 = w;
            let bits: Vec<Bdd> =
                (0..w2).rev().map(|i| bdd::new_var(format!("{name}#{i}"), false)).collect();
            let bits: Vec<Bdd> = bits.into_iter().rev().collect();
            return Ok(Value::Int(Int::bits(bits)));
        }
        if float_info(t).is_some() {
            *k += 1;
            return Ok(Value::Float(Rc::new(FloatV::var(float_info(t).unwrap(), name))));
        }
        if let Some(n) = array_len(t) {
            let e = elem_ty(t).unwrap();
            let mut v = vec![];
            for i in 0..n {
                v.push(self.any(&format!("{name}[{i}]"), e, k, st)?);
            }
            return Ok(Value::agg(v));
        }
        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = &*kind(t) {
            let mut v = vec![];
            for (i, e) in ts.iter().enumerate() {
                v.push(self.any(&format!("{name}.{i}"), *e, k, st)?);
            }
            return Ok(Value::agg(v));
        }
        if let Some((d, _)) = adt(t) {
            use rustc_public::ty::AdtKind;
            if d.kind() == AdtKind::Struct && !container(t) && !d.is_box() {
                let fs = variant_fields(t, 0);
                let mut v = vec![];
                for (i, e) in fs.iter().enumerate() {
                    v.push(self.any(&format!("{name}.{i}"), *e, k, st)?);
                }
                return Ok(Value::agg(v));
            }
            if d.kind() == AdtKind::Enum {
                let nv = d.num_variants();
                let nb = (usize::BITS - (nv - 1).leading_zeros()).max(1);
                let idx: Vec<Bdd> =
                    (0..nb).map(|i| bdd::new_var(format!("{name}.variant#{i}"), false)).collect();
                let idx = Int::bits(idx);
                if nv < 1 << nb {
                    st.pc = bdd::and(st.pc, idx.ult(&Int::c(nb, nv as u128)));
                }
                let w = discr_ty_width(t);
                let mut discr = Int::c(w, discr_of(&d, 0));
                let mut vars = vec![];
                for i in 0..nv {
                    let g = idx.eq(&Int::c(nb, i as u128));
                    discr = ite_int(g, &Int::c(w, discr_of(&d, i)), &discr);
                    let mut fv = vec![];
                    for (j, e) in variant_fields(t, i).iter().enumerate() {
                        fv.push(self.any(&format!("{name}.{i}.{j}"), *e, k, st)?);
                    }
                    vars.push(Some(Rc::new(fv)));
                }
                return Ok(Value::Enum(Rc::new(EnumV { discr, vars })));
            }
        }
        und(format!("no arbitrary value of type {t}"))
    }

    // ------------------------------------------------------------ intrinsics

    #[allow(clippy::too_many_arguments)]
    pub fn intrinsic(
        &mut self,
        st: &mut State,
        n: &str,
        targs: &[Ty],
        _g: &GenericArgs,
        args: &[Value],
        tys: &[Ty],
        ret: Ty,
    ) -> R<Option<Value>> {
        let signed = || tys.first().and_then(|t| int_info(*t)).map(|x| x.1).unwrap_or(false);
        for a in args {
            if let Value::Bad(_) = a {
                if !matches!(n, "black_box") {
                    return Ok(Some(a.clone()));
                }
            }
        }
        let r = match n {
            "size_of" => Value::usize(size_of(targs[0]).ok_or(Stop::Und("size_of".into()))?),
            "align_of" | "min_align_of" | "pref_align_of" => {
                Value::usize(layout(targs[0]).ok_or(Stop::Und("align".into()))?.abi_align as usize)
            }
            "needs_drop" => Value::bool(F),
            "ub_checks" | "contract_checks" => Value::bool(F),
            "overflow_checks" => Value::bool(T),
            "is_val_statically_known" => Value::bool(F),
            "likely" | "unlikely" | "black_box" | "const_deallocate" => args[0].clone(),
            "cold_path" | "assume" | "assert_inhabited" | "assert_zero_valid"
            | "assert_mem_uninitialized_valid" => Value::unit(),
            "transmute" | "transmute_unchecked" => {
                self.transmute(args[0].clone(), targs[0], targs[1])?
            }
            "discriminant_value" => match self.load(st, ptr(&args[0])?)? {
                Value::Enum(e) => Value::Int(e.discr.clone()),
                v => return und(format!("discriminant of {}", short(&v))),
            },
            "wrapping_add" | "unchecked_add" => Value::Int(int(&args[0])?.add(int(&args[1])?)),
            "wrapping_sub" | "unchecked_sub" => Value::Int(int(&args[0])?.sub(int(&args[1])?)),
            "wrapping_mul" | "unchecked_mul" => Value::Int(int(&args[0])?.mul_pc(int(&args[1])?, st.pc)),
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match &n[..3] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (r, o) = self.overflowing(op, int(&args[0])?, int(&args[1])?, signed(), st.pc)?;
                Value::agg(vec![Value::Int(r), Value::bool(o)])
            }
            "saturating_add" | "saturating_sub" => {
                let (a, b) = (int(&args[0])?, int(&args[1])?);
                let add = n == "saturating_add";
                let op = if add { BinOp::Add } else { BinOp::Sub };
                let (r, o) = self.overflowing(op, a, b, signed(), st.pc)?;
                let w = a.w;
                let sat = if signed() {
                    let neg = a.bit(w - 1);
                    ite_int(neg, &Int::c(w, 1 << (w - 1)), &Int::c(w, mask(w - 1)))
                } else if add {
                    Int::c(w, mask(w))
                } else {
                    Int::c(w, 0)
                };
                Value::Int(ite_int(o, &sat, &r))
            }
            "unchecked_div" | "exact_div" => {
                Value::Int(self.divrem(int(&args[0])?, int(&args[1])?, signed(), st.pc)?.0)
            }
            "unchecked_rem" => {
                Value::Int(self.divrem(int(&args[0])?, int(&args[1])?, signed(), st.pc)?.1)
            }
            "unchecked_shl" | "unchecked_shr" => Value::Int(self.shift(
                n == "unchecked_shl",
                int(&args[0])?,
                &int(&args[1])?.zext(32),
                signed(),
                st.pc,
            )?),
            "rotate_left" | "rotate_right" => {
                let a = int(&args[0])?;
                let k = int(&args[1])?.konst().ok_or(Stop::Und("rotate".into()))? as u32 % a.w;
                let b = a.to_bits();
                let w = a.w;
                let k = if n == "rotate_left" { k } else { (w - k) % w };
                Value::Int(Int::bits((0..w).map(|i| b[((i + w - k) % w) as usize]).collect()))
            }
            "bswap" => {
                let a = int(&args[0])?;
                let b = a.to_bits();
                let n = a.w / 8;
                let mut r = vec![];
                for i in (0..n).rev() {
                    r.extend_from_slice(&b[(i * 8) as usize..(i * 8 + 8) as usize]);
                }
                Value::Int(Int::bits(r))
            }
            "bitreverse" => {
                let b = int(&args[0])?.to_bits();
                Value::Int(Int::bits(b.iter().rev().copied().collect()))
            }
            "ctpop" => {
                let b = int(&args[0])?.to_bits();
                let mut acc = Int::c(32, 0);
                for x in b.iter() {
                    acc = acc.add(&Int::bool(*x).zext(32));
                }
                Value::Int(acc)
            }
            "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" => {
                let a = int(&args[0])?;
                let b = a.to_bits();
                let mut r = Int::c(32, a.w as u128);
                let idx: Vec<u32> = if n.starts_with("ctlz") {
                    (0..a.w).collect()
                } else {
                    (0..a.w).rev().collect()
                };
                for i in idx {
                    let v = if n.starts_with("ctlz") { a.w - 1 - i } else { i };
                    r = ite_int(b[i as usize], &Int::c(32, v as u128), &r);
                }
                Value::Int(r)
            }
            "three_way_compare" => {
                let (a, b) = (int(&args[0])?, int(&args[1])?);
                ordering(lt(a, b, signed()), a.eq(b))
            }
            "ptr_offset" | "offset" | "arith_offset" => {
                let s = tys.get(1).and_then(|t| int_info(*t)).map(|x| x.1).unwrap_or(true);
                self.ptr_offset(st, &args[0], int(&args[1])?, s)?
            }
            "ptr_metadata" => {
                if pointee(tys[0]).is_some_and(is_slice_like) {
                    Value::Int(meta_len_pc(ptr(&args[0])?, st.pc)?)
                } else {
                    Value::unit()
                }
            }
            "aggregate_raw_ptr" => return und("aggregate_raw_ptr"),
            "slice_get_unchecked" => {
                let mut ts = ptr(&args[0])?.to_vec();
                self.index(st, &mut ts, int(&args[1])?, true)?;
                Value::Ptr(Rc::new(ts))
            }
            "ptr_offset_from_unsigned" | "ptr_offset_from" => {
                let (a, b) = (ptr(&args[0])?.clone(), ptr(&args[1])?.clone());
                if a.len() != 1 || b.len() != 1 || a[0].1.root != b[0].1.root {
                    return und("pointer difference");
                }
                let (Some(Elem::Index(i)), Some(Elem::Index(j))) =
                    (a[0].1.path.last(), b[0].1.path.last())
                else {
                    return und("pointer difference");
                };
                Value::Int(Int::c(64, (*i as i64 - *j as i64) as u64 as u128))
            }
            "copy_nonoverlapping" | "copy" => {
                self.copy_mem(st, &args[0], &args[1], &args[2])?;
                Value::unit()
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                self.load(st, ptr(&args[0])?)?
            }
            "write_via_move" | "volatile_store" => {
                self.store(st, &ptr(&args[0])?.clone(), args[1].clone())?;
                Value::unit()
            }
            "typed_swap_nonoverlapping" => {
                let (a, b) = (ptr(&args[0])?.clone(), ptr(&args[1])?.clone());
                let x = self.load(st, &a)?;
                let y = self.load(st, &b)?;
                self.store(st, &a, y)?;
                self.store(st, &b, x)?;
                Value::unit()
            }
            "const_eval_select" => {
                // the run-time alternative
                let fty = tys[2];
                let Value::Agg(tup) = &args[0] else { return und("const_eval_select") };
                let atys: Vec<Ty> = match &*kind(tys[0]) {
                    TyKind::RigidTy(RigidTy::Tuple(t)) => t.clone(),
                    _ => vec![],
                };
                return self.call_ty(st, fty, tup.to_vec(), &atys, ret).map(Some);
            }
            "compare_bytes" => {
                let n = int(&args[2])?.clone();
                let max = n
                    .values(st.pc, 300)
                    .ok_or(Stop::Und("compare_bytes".into()))?
                    .iter()
                    .map(|x| x.0)
                    .max()
                    .unwrap_or(0) as usize;
                let (a, b) = (ptr(&args[0])?.clone(), ptr(&args[1])?.clone());
                let mut r = Int::c(32, 0);
                for k in (0..max).rev() {
                    let g = Int::usize(k).ult(&n);
                    let mut s = st.clone();
                    s.pc = bdd::and(st.pc, g);
                    let x = self.load(&s, &adv(&a, k)?)?;
                    let y = self.load(&s, &adv(&b, k)?)?;
                    let (x, y) = (int(&x)?, int(&y)?);
                    let d = ite_int(x.ult(y), &Int::c(32, mask(32)), &Int::c(32, 1));
                    r = ite_int(bdd::or(bdd::not(g), x.eq(y)), &r, &d);
                }
                Value::Int(r)
            }
            "caller_location" => bad("source location"),
            "type_id" | "type_name" => bad("type identity"),
            "type_id_eq" => bad("type identity"),
            "select_unpredictable" => ite(int(&args[0])?.as_bool(), &args[1], &args[2]),
            "float_to_int_unchecked" => {
                let Value::Float(f) = &args[0] else { return und("float") };
                let (w, s) = int_info(ret).unwrap();
                Value::Int(f.to_int(w, s))
            }
            _ => {
                let base = n.trim_end_matches("f32").trim_end_matches("f64").trim_end_matches('_');
                let un = match base {
                    "fabs" | "abs" => 11,
                    "round" => 12,
                    "floor" => 13,
                    "ceil" => 14,
                    "trunc" => 15,
                    "sqrt" => 18,
                    "round_ties_even" | "rint" | "nearbyint" => 19,
                    _ => 0,
                };
                if un != 0 {
                    if let Value::Float(f) = &args[0] {
                        return Ok(Some(Value::Float(Rc::new(f.un(un)))));
                    }
                }
                let bin = match base {
                    "minnum" | "minimum_number_nsz" | "minimum" => 20,
                    "maxnum" | "maximum_number_nsz" | "maximum" => 21,
                    "fadd_fast" | "fadd_algebraic" => 0,
                    "fsub_fast" | "fsub_algebraic" => 1,
                    "fmul_fast" | "fmul_algebraic" => 2,
                    "fdiv_fast" | "fdiv_algebraic" => 3,
                    _ => 99,
                };
                if bin != 99 {
                    if let (Value::Float(a), Value::Float(b)) = (&args[0], &args[1]) {
                        return Ok(Some(Value::Float(Rc::new(a.bin(bin, b, st.pc)))));
                    }
                }
                if base == "fma" || base == "fmuladd" || base == "mul_add" {
                    // the product of two f32 is exact in f64
                    if let (Value::Float(a), Value::Float(b), Value::Float(c)) = (&args[0], &args[1], &args[2]) {
                        if a.k == 32 {
                            let p = a.un(17).bin(2, &b.un(17), st.pc);
                            return Ok(Some(Value::Float(Rc::new(p.bin(0, &c.un(17), st.pc).un(16)))));
                        }
                    }
                    return und("fused multiply-add");
                }
                return Ok(None);
            }
        };
        Ok(Some(r))
    }
}

fn trim(v: &mut VecV) {
    let m = v.len.max();
    if (v.elems.len() as u128) > m {
        v.elems.truncate(m as usize);
    }
}
fn trim_pc(v: &mut VecV, pc: Bdd) {
    trim(v);
    if let Some(vs) = v.len.values(pc, 2000) {
        let m = vs.iter().map(|x| x.0).max().unwrap_or(0);
        if m < 100_000 && (v.elems.len() as u128) > m {
            v.elems.truncate(m as usize);
        }
    }
}
fn panic_text(name: &str, _args: &[Value]) -> String {
    let n = name.rsplit("::").next().unwrap_or(name);
    match n {
        "unwrap_failed" => "unwrap/expect on an error or missing value".into(),
        "expect_failed" => "expect on an error or missing value".into(),
        "panic_fmt" | "panic" | "panic_display" | "panic_str_2015" | "panic_explicit" => "explicit panic".into(),
        _ => format!("panic in {name}"),
    }
}

fn footprint(v: &Value, pc: Bdd) -> usize {
    match v {
        Value::Agg(x) => x.iter().map(|x| footprint(x, pc)).sum(),
        Value::Enum(e) => {
            let mut most = 0;
            for (k, x) in e.vars.iter().enumerate() {
                let Some(x) = x else { continue };
                let _ = k;
                most = most.max(x.iter().map(|x| footprint(x, pc)).sum());
            }
            most
        }
        Value::Vec(x) => {
            let mut n = x.elems.len();
            while n > 0 && bdd::and(pc, Int::usize(n - 1).ult(&x.len)) == F {
                n -= 1;
            }
            n + x.elems[..n].iter().map(|x| footprint(x, pc)).sum::<usize>()
        }
        Value::Boxed(b) => 1 + footprint(&b.inner, pc),
        _ => 0,
    }
}
