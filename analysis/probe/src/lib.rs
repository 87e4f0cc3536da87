//! Monomorphic entry points for the generic API of swig-state, so that the analyses see every
//! instantiation. Nothing here is executed.
#![allow(dead_code, unused)]
extern crate swig;
extern crate swig_compact_instructions;
extern crate swig_assertions;
use pinocchio::program_error::ProgramError;
use swig_state::action::{self, Action, ActionLoader, Actionable};
use swig_state::authority::{self, Authority, AuthorityInfo};
use swig_state::role::{Role, RoleMut, Position};
use swig_state::{Transmutable, TransmutableMut, IntoBytes};

macro_rules! actions { ($($m:ident : $t:path),* $(,)?) => { $(
    pub mod $m {
        use super::*;
        pub fn valid_layout(d: &[u8]) -> Result<bool, ProgramError> { <$t as Actionable>::valid_layout(d) }
        pub fn match_data(x: &$t, d: &[u8]) -> bool { <$t as Actionable>::match_data(x, d) }
        pub fn role_get<'a>(r: &'a Role<'a>, d: &[u8]) -> Result<Option<&'a $t>, ProgramError> { r.get_action::<$t>(d) }
        pub fn role_get_all<'a>(r: &'a Role<'a>) -> Result<Vec<&'a $t>, ProgramError> { r.get_all_actions_of_type::<$t>() }
        pub fn rolemut_get<'a>(r: &'a RoleMut<'a>, d: &[u8]) -> Result<Option<&'a $t>, ProgramError> { r.get_action::<$t>(d) }
        pub fn rolemut_get_mut<'a>(a: &'a mut [u8], d: &[u8]) -> Result<Option<&'a mut $t>, ProgramError> { RoleMut::get_action_mut::<$t>(a, d) }
        pub fn find(d: &[u8]) -> Result<Option<&$t>, ProgramError> { ActionLoader::find_action::<$t>(d) }
        pub unsafe fn load(d: &[u8]) -> Result<&$t, ProgramError> { <$t as Transmutable>::load_unchecked(d) }
        pub unsafe fn load_mut(d: &mut [u8]) -> Result<&mut $t, ProgramError> { <$t as TransmutableMut>::load_mut_unchecked(d) }
    }
)* } }
actions! {
    sol_limit: action::sol_limit::SolLimit,
    sol_recurring_limit: action::sol_recurring_limit::SolRecurringLimit,
    sol_destination_limit: action::sol_destination_limit::SolDestinationLimit,
    sol_recurring_destination_limit: action::sol_recurring_destination_limit::SolRecurringDestinationLimit,
    token_limit: action::token_limit::TokenLimit,
    token_recurring_limit: action::token_recurring_limit::TokenRecurringLimit,
    token_destination_limit: action::token_destination_limit::TokenDestinationLimit,
    token_recurring_destination_limit: action::token_recurring_destination_limit::TokenRecurringDestinationLimit,
    stake_limit: action::stake_limit::StakeLimit,
    stake_recurring_limit: action::stake_recurring_limit::StakeRecurringLimit,
    stake_all: action::stake_all::StakeAll,
    program: action::program::Program,
    program_all: action::program_all::ProgramAll,
    program_curated: action::program_curated::ProgramCurated,
    program_scope: action::program_scope::ProgramScope,
    all: action::all::All,
    all_but_manage_authority: action::all_but_manage_authority::AllButManageAuthority,
    manage_authority: action::manage_authority::ManageAuthority,
    close_swig_authority: action::close_swig_authority::CloseSwigAuthority,
    sub_account: action::sub_account::SubAccount,
    replace_authority: action::replace_authority::ReplaceAuthority,
    sub_account_v2_create: action::sub_account_v2::SubAccountV2Create,
    sub_account_v2_all: action::sub_account_v2::SubAccountV2All,
    sub_account_v2_sign: action::sub_account_v2::SubAccountV2Sign,
    sub_account_v2_withdraw: action::sub_account_v2::SubAccountV2Withdraw,
    sub_account_v2_toggle: action::sub_account_v2::SubAccountV2Toggle,
}

macro_rules! views { ($($m:ident : $t:path),* $(,)?) => { $(
    pub mod $m {
        use super::*;
        pub unsafe fn load(d: &[u8]) -> Result<&$t, ProgramError> { <$t as Transmutable>::load_unchecked(d) }
        pub fn into_bytes(x: &$t) -> Result<&[u8], ProgramError> { <$t as IntoBytes>::into_bytes(x) }
    }
)* } }
views! {
    v_position: Position,
    v_swig: swig_state::swig::Swig,
    v_sub_account_state: swig_state::sub_account_v2::SubAccountV2,
    v_action: Action,
}

pub fn read_first_rent(d: &[u8]) -> Result<Option<swig_state::tail::rent_claimer::RentClaimerEntry<'_>>, swig_state::tail::TailReadError> {
    swig_state::tail::read_first_of(d)
}

macro_rules! auths { ($($m:ident : $t:path),* $(,)?) => { $(
    pub mod $m {
        use super::*;
        use pinocchio::account_info::AccountInfo;
        pub fn authenticate(x: &mut $t, a: &[AccountInfo], p: &[u8], d: &[u8], s: u64) -> Result<(), ProgramError> { <$t as AuthorityInfo>::authenticate(x, a, p, d, s) }
        pub fn authenticate_session(x: &mut $t, a: &[AccountInfo], p: &[u8], d: &[u8], s: u64) -> Result<(), ProgramError> { <$t as AuthorityInfo>::authenticate_session(x, a, p, d, s) }
        pub fn start_session(x: &mut $t, k: [u8; 32], s: u64, n: u64) -> Result<(), ProgramError> { <$t as AuthorityInfo>::start_session(x, k, s, n) }
        pub fn set_into_bytes(c: &[u8], b: &mut [u8]) -> Result<(), ProgramError> { <$t as Authority>::set_into_bytes(c, b) }
        pub fn match_data(x: &$t, d: &[u8]) -> bool { <$t as AuthorityInfo>::match_data(x, d) }
    }
)* } }
auths! {
    au_ed25519: authority::ed25519::ED25519Authority,
    au_ed25519_session: authority::ed25519::Ed25519SessionAuthority,
    au_secp256k1: authority::secp256k1::Secp256k1Authority,
    au_secp256k1_session: authority::secp256k1::Secp256k1SessionAuthority,
    au_secp256r1: authority::secp256r1::Secp256r1Authority,
    au_secp256r1_session: authority::secp256r1::Secp256r1SessionAuthority,
    au_program_exec: authority::programexec::ProgramExecAuthority,
    au_program_exec_session: authority::programexec::session::ProgramExecSessionAuthority,
}

/// Library routines as plain loops (see `subst` in the extractor).
pub mod std_models {
    pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> { let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x); } v }
    pub fn collect_result<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
        let mut v = Vec::new();
        while let Some(x) = it.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } }
        Ok(v)
    }
    pub fn collect_map<K: Eq + std::hash::Hash, V, I: Iterator<Item = (K, V)>>(mut it: I) -> std::collections::HashMap<K, V> { let mut m = std::collections::HashMap::new(); while let Some((k, v)) = it.next() { m.insert(k, v); } m }
    pub fn collect_option<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
        let mut v = Vec::new();
        while let Some(x) = it.next() { match x { Some(y) => v.push(y), None => return None } }
        Some(v)
    }
    pub fn vec_index<T, I: std::slice::SliceIndex<[T]>>(v: &Vec<T>, i: I) -> &I::Output { std::ops::Index::index(v.as_slice(), i) }
    pub fn vec_index_mut<T, I: std::slice::SliceIndex<[T]>>(v: &mut Vec<T>, i: I) -> &mut I::Output { std::ops::IndexMut::index_mut(v.as_mut_slice(), i) }
    pub fn vec_iter<'a, T>(v: &'a Vec<T>) -> std::slice::Iter<'a, T> { v.as_slice().iter() }
    pub fn vec_iter_mut<'a, T>(v: &'a mut Vec<T>) -> std::slice::IterMut<'a, T> { v.as_mut_slice().iter_mut() }
    use std::collections::hash_map::Entry;
    pub fn or_insert_with<'a: 'a, K, V, F: FnOnce() -> V>(e: Entry<'a, K, V>, f: F) -> &'a mut V { match e { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(f()) } }
    pub fn or_insert<'a: 'a, K, V>(e: Entry<'a, K, V>, x: V) -> &'a mut V { match e { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(x) } }
    pub fn extend_own<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { v.push(x); } }
    pub fn extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { v.push(*x); } }
}
