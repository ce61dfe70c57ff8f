//! Harnesses: each entry builds symbolic inputs with `sx::range`, runs the real pokers code and asserts the
//! property. The same code runs natively in `replay` with the inputs of a solver model.
#![allow(dead_code)]

pub mod sx {
    extern "C" {
        fn sx_range(lo: u64, hi: u64) -> u64;
        fn sx_assume(c: bool);
        fn sx_assert(c: bool, id: u32);
        fn sx_concretize(v: u64) -> u64;
        fn sx_param(i: u32) -> u64;
        fn sx_shard(v: u64);
        fn sx_observe(v: u64);
        fn sx_reach(id: u32);
        fn sx_merge(on: u32);
        fn sx_symtab(on: u32);
        fn sx_measure(key: u64, total: u64);
        fn sx_preempt(k: u32);
        fn sx_engine() -> bool;
        fn sx_done();
    }
    /// fresh symbolic integer in lo..=hi
    pub fn range(lo: u64, hi: u64) -> u64 {
        unsafe { sx_range(lo, hi) }
    }
    pub fn assume(c: bool) {
        unsafe { sx_assume(c) }
    }
    pub fn check(c: bool, id: u32) {
        unsafe { sx_assert(c, id) }
    }
    /// fork over every feasible value
    pub fn conc(v: u64) -> u64 {
        unsafe { sx_concretize(v) }
    }
    pub fn param(i: u32) -> u64 {
        unsafe { sx_param(i) }
    }
    /// split the work over worker processes by a concrete value
    pub fn shard(v: u64) {
        unsafe { sx_shard(v) }
    }
    pub fn observe(v: u64) {
        unsafe { sx_observe(v) }
    }
    pub fn reach(id: u32) {
        unsafe { sx_reach(id) }
    }
    pub fn merge(on: bool) {
        unsafe { sx_merge(on as u32) }
    }
    pub fn symtab(on: bool) {
        unsafe { sx_symtab(on as u32) }
    }
    /// fork over the values of every symbolic address from here on
    pub fn forkidx() {
        unsafe { sx_symtab(2) }
    }
    /// outcome `key` of `total`: the engine counts the inputs that take this path
    pub fn measure(key: u64, total: u64) {
        unsafe { sx_measure(key, total) }
    }
    pub fn preempt(k: u32) {
        unsafe { sx_preempt(k) }
    }
    /// end here, as if the entry returned
    pub fn done() {
        unsafe { sx_done() }
    }
    /// true inside the symbolic engine, false in native replay
    pub fn engine() -> bool {
        unsafe { sx_engine() }
    }
}

/// Independent reference material: cards as rank (0 = deuce) and suit (0 = spades, hearts, clubs, diamonds).
pub mod spec {
    pub const RANKS: &[u8; 13] = b"23456789TJQKA";
    pub const SUITS: &[u8; 4] = b"shcd";
    /// bit of a card in the 64-bit card masks used by the public interface
    pub fn bit(card: u64) -> u64 {
        1u64 << ((3 - (card & 3)) * 16 + (card >> 2))
    }
}

macro_rules! entries {
    ($( $feat:literal $m:ident : $($f:ident),* ; )*) => {
        $( #[cfg(feature = $feat)] pub mod $m; )*
        /// entry points by name, for native replay
        pub fn entry(name: &str) -> Option<extern "C" fn()> {
            $( #[cfg(feature = $feat)] { $( if name == stringify!($f) { return Some($m::$f); } )* } )*
            let _ = name;
            None
        }
    };
}
#[cfg(any(feature = "c12", feature = "c13", feature = "c14", feature = "c15", feature = "c16", feature = "c17", feature = "c18", feature = "c22"))]
pub mod e2e;
#[cfg(any(feature = "c19", feature = "c20", feature = "c21"))]
pub mod draws;
#[cfg(any(feature = "c14", feature = "c16", feature = "c17", feature = "c18", feature = "c22"))]
pub mod rng;
entries! {
    "c01" c01: c01_chain, c01_plain, c01_flush, c01_noflush;
    "c02" c02: c02_build, c02_mask;
    "c03" c03: c03_index, c03_inj, c03_names, c03_lookup;
    "c04" c04: c04_item;
    "c05" c05: c05_text, c05_template, c05_wide, c05_word;
    "c06" c06: c06_list, c06_case, c06_stop, c06_random, c06_many;
    "c07" c07: c07_set, c07_card, c07_hole, c07_mask_text, c07_card_text, c07_flop;
    "c08" c08: c08_order, c08_show;
    "c09" c09: c09_any, c09_long;
    "c10" c10: c10_each, c10_special, c10_all, c10_op;
    "c11" c11: c11_any, c11_large;
    "c12" c12: c12_counts, c12_shares, c12_deck, c12_scale, c12_plays;
    "c13" c13: c13_suits, c13_place, c13_dead, c13_split;
    "c14" c14: c14_args, c14_conflict, c14_some, c14_random, c14_last, c14_any;
    "c15" c15: c15_full, c15_live;
    "c16" c16: c16_run;
    "c17" c17: c17_first, c17_next, c17_count, c17_forced;
    "c18" c18: c18_stop, c18_threads;
    "c19" c19: c19_draw, c19_made, c19_rename;
    "c20" c20: c20_draw, c20_made;
    "c21" c21: c21_nut;
    "c22" c22: c22_deal, c22_freq, c22_share;
}
