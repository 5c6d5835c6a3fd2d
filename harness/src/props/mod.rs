//! The properties: for each, the monitored workload that decides it.

use crate::ctx::{Ctx, Res, Tier};

pub mod automata;
pub mod compose;
pub mod crash;
pub mod matchers;
pub mod misuse;
pub mod odd;
pub mod patterns;
pub mod ranges;
pub mod readers;
pub mod serial;
pub mod split;
pub mod stress;
pub mod tagged;
pub mod tape;
pub mod tokens;
pub mod values;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    /// Cases at the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    /// How cases are made and what makes one non-trivial
    pub rule: &'static str,
}

macro_rules! prop {
    ($id:expr, $f:path, $q:expr, $t:expr, $rule:expr) => {
        Prop { id: $id, run: $f, quick: $q, thorough: $t, rule: $rule }
    };
}

pub static PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "c01"))]
    prop!("C01", patterns::c01, 36_000, 400_000, "Patterns generated over eight symbol types and several alphabet shapes (extremes, surrogate gap, dense, wide), from trivial to thousands of automaton states; inputs aimed at them (walks, near misses, noise, long). Each is judged by a denotational reference or an independent automaton. Non-trivial: pattern with at least one operator and a distinct input longer than zero."),
    #[cfg(any(feature = "all", feature = "c02"))]
    prop!("C02", patterns::c02, 120_000, 800_000, "Random trees of append/or/repeat/repeat_forever/exactly over all operand kinds, built by value, reference, box, slice, string; the resulting matcher is compared with the reference language. Non-trivial: distinct tree with at least two operations."),
    #[cfg(any(feature = "all", feature = "c03"))]
    prop!("C03", automata::c03, 120_000, 800_000, "Generated nondeterministic automata (joins, cycles, shared targets, clashing outputs) with pairwise equal or disjoint ranges; the compiled tables are compared with an independent subset construction on all words by product walk. Non-trivial: distinct automaton with a transition, joins or clashes."),
    #[cfg(any(feature = "all", feature = "c04"))]
    prop!("C04", automata::c04, 36_000, 400_000, "Compiled automata observed through the state machine interface and through a recording builder (protocol monitor), recompiled and compared by product walk. Non-trivial: distinct automaton with at least two states."),
    #[cfg(any(feature = "all", feature = "c05"))]
    prop!("C05", automata::c05, 120_000, 800_000, "Random histories of building operations, the model queried after operations; every state and every class of symbols compared. Non-trivial: distinct history with joins that matter."),
    #[cfg(any(feature = "all", feature = "c06"))]
    prop!("C06", ranges::c06, 450_000, 3_000_000, "Sets of ranges over all symbol types, clustered at shared ends, extremes and the surrogate gap; the result is judged as an exact partition. Non-trivial: distinct set with overlaps."),
    #[cfg(any(feature = "all", feature = "c07"))]
    prop!("C07", ranges::c07, 450_000, 3_000_000, "Insertion histories of ranges with nested, duplicated and overlapping members; targets at, around and across their ends; the answer compared with a filter over the inserted set. Non-trivial: distinct history where a target overlaps a range."),
    #[cfg(any(feature = "all", feature = "c08"))]
    prop!("C08", automata::c08, 180_000, 1_200_000, "Generated automata with overlapping ranges, before and after fixing: the reachable sets compared for every state and every elementary class of symbols. Non-trivial: distinct automaton with overlapping ranges."),
    #[cfg(any(feature = "all", feature = "c09"))]
    prop!("C09", tokens::c09, 36_000, 400_000, "Clashing token sets with outputs of four ordered types, added in several orders and compiled several times; each judged by an independent automaton. Non-trivial: distinct token set with a clash."),
    #[cfg(any(feature = "all", feature = "c10"))]
    prop!("C10", tokens::c10, 60_000, 400_000, "Token sets and streams of token words, near misses and noise, tokenized through several kinds of source; compared with reference maximal munch. Non-trivial: distinct set and stream with at least two tokens."),
    #[cfg(any(feature = "all", feature = "c11"))]
    prop!("C11", tokens::c11, 90_000, 600_000, "Random interleavings of the tokenizer's calls on generated streams, judged step by step by a model. Non-trivial: distinct interleaving with both tokens and skips."),
    #[cfg(any(feature = "all", feature = "c12"))]
    prop!("C12", tape::c12, 600_000, 4_000_000, "Histories of reads, rewinds, cuts and resizes in several styles against a cursor model, checked after every step. Non-trivial: distinct history that rewinds."),
    #[cfg(any(feature = "all", feature = "c13"))]
    prop!("C13", tape::c13, 150_000, 1_000_000, "Histories over an instrumented source (polls, deliveries, ends) with instance-counting symbols. Non-trivial: distinct history that rewinds and outgrows its window."),
    #[cfg(any(feature = "all", feature = "c14"))]
    prop!("C14", split::c14, 450_000, 3_000_000, "Interleavings of reads, splits and drops on a tree of split readers, each judged against the sequence. Non-trivial: distinct interleaving where both halves read."),
    #[cfg(any(feature = "all", feature = "c15"))]
    prop!("C15", split::c15, 450_000, 3_000_000, "As C14 with an instrumented source and instance-counting symbols: polls and live symbols judged after every step. Non-trivial: distinct interleaving with a lag."),
    #[cfg(any(feature = "all", feature = "c16"))]
    prop!("C16", tagged::c16, 450_000, 3_000_000, "Repeated tagging of generated streams by every operation, the whole tree compared with a model after each. Non-trivial: distinct history with non-empty tags."),
    #[cfg(any(feature = "all", feature = "c17"))]
    prop!("C17", tagged::c17, 60_000, 400_000, "Tagged streams tokenized in successive levels with call-recording mappings; compared with reference maximal munch of the mapped symbols. Non-trivial: distinct stream with at least one token."),
    #[cfg(any(feature = "all", feature = "c18"))]
    prop!("C18", serial::c18, 48_000, 320_000, "Prepared matchers and ranges over eight symbol types and four output types through five serialization routes; tables, behaviour and re-serialized data compared. Non-trivial: distinct matcher and route."),
    #[cfg(any(feature = "all", feature = "c19"))]
    prop!("C19", matchers::c19, 18_000, 150_000, "Pools of matches in progress over several matchers and copies of them, forked and abandoned at random, and matchers shared by several threads; each result judged by an independent automaton. Non-trivial: distinct pool with forks."),
    #[cfg(any(feature = "all", feature = "c20"))]
    prop!("C20", ranges::c20, 60_000, 400_000, "All values of u8, i8, u16, i16, u32, i32 and char, then sampled values of the wider types around boundaries, powers of two and anywhere. Non-trivial: each distinct value (of the enumerations, every n-th is counted here; the counter has the full number)."),
    #[cfg(any(feature = "all", feature = "c21"))]
    prop!("C21", ranges::c21, 180_000, 1_200_000, "Pairs and triples of ranges with shared and adjacent ends over all symbol types, judged as sets; orders checked as total orders. Non-trivial: distinct pair."),
    #[cfg(any(feature = "all", feature = "c22"))]
    prop!("C22", readers::c22, 300_000, 2_000_000, "Sequences read through every kind of reader and adaptor, by single reads, at once or mixed; byte sources fragment, interrupt and fail as scheduled; mapping calls recorded. Non-trivial: distinct reader and sequence of at least two symbols."),
    #[cfg(any(feature = "all", feature = "c23"))]
    prop!("C23", patterns::c23, 12_000, 250_000, "Patterns, token sets and hand-built automata compiled repeatedly, reordered and with duplicated alternatives, compared by product walk; digests of answers compared between processes. Non-trivial: distinct set with at least two alternatives."),
    #[cfg(any(feature = "all", feature = "c24"))]
    prop!("C24", crash::c24, 6_000, 200_000, "The workloads of all other properties under AddressSanitizer with overflow checks and debug assertions, a small share of them under Miri, and comparison-counting symbols for bounded work. Non-trivial: distinct non-trivial case of the underlying workload."),
    #[cfg(any(feature = "all", feature = "c25"))]
    prop!("C25", matchers::c25, 60_000, 400_000, "Token sets driven symbol by symbol against their own observed tables and an independent automaton, and as whole streams over an instrumented source. Non-trivial: distinct set and input that the automaton follows."),
    #[cfg(any(feature = "all", feature = "c26"))]
    prop!("C26", misuse::c26, 300_000, 2_000_000, "Invalid requests (reversed ranges, also buried in patterns; rewinds beyond a cut; tags out of order, overlapping or outside) and requests at the exact boundary; state compared before and after a refusal. Non-trivial: distinct invalid request."),
    #[cfg(any(feature = "all", feature = "c27"))]
    prop!("C27", patterns::c27, 12_000, 250_000, "Generated patterns matched by every way of preparing and running them over every kind of source. Non-trivial: distinct pattern and input."),
    #[cfg(any(feature = "all", feature = "c28"))]
    prop!("C28", tokens::c28, 90_000, 400_000, "Random interleavings of the tokenizer's calls over an instrumented source with instance-counting symbols: polls, live symbols and bytes judged after every call against how far the observed automaton can follow. Non-trivial: distinct interleaving in which something is read ahead."),
    #[cfg(any(feature = "all", feature = "c29"))]
    prop!("C29", compose::c29, 750_000, 4_000_000, "Stacks of one to seven stages (mapped, boxed, collected, filtered, rewound tape, both halves of a split, tokens, tags) over four kinds of source, read to the end or dropped; compared with the stages' meanings applied in turn. Non-trivial: distinct stack of at least two stages that delivers something."),
    #[cfg(any(feature = "all", feature = "c30"))]
    prop!("C30", compose::c30, 180_000, 1_200_000, "Patterns compiled onto generated automata (the library's and one of our own) from any state, next to and after one another; the states active after words aimed at start, pattern and what follows are compared with before, and the end state's words with an independent automaton, completely. Non-trivial: distinct automaton, pattern, start and word."),
    #[cfg(any(feature = "all", feature = "c31"))]
    prop!("C31", values::c31, 60_000, 1_000_000, "Pools of streams, patterns, automata, matchers and ranges: copied, made anew, made with one difference, changed, combined, taken apart, compiled and dropped at random; every member compared with its model after every step, and every pair's equality with that of their models. Non-trivial: each distinct history of a pool."),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

pub fn count(p: &Prop, tier: Tier) -> u64 {
    match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
        Tier::Tiny => 0,
    }
}

/// Whether a case is one of the large ones
pub fn is_stress(id: &str, tier: Tier, idx: u64) -> bool {
    if id == "C24" {
        return tier != Tier::Tiny && idx % PROPS.len() as u64 == PROPS.iter().position(|p| p.id == "C24").unwrap_or(0) as u64;
    }
    stress::of(id, tier, idx).is_some()
}
