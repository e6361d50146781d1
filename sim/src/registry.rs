//! The properties and how they are explored.

use crate::ctx::{Ctx, Res};
use crate::{props_cli, props_det, props_mem, props_stream, props_tree, props_write};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    /// Needs a scratch directory.
    pub files: bool,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assume: &'static [&'static str],
}

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

const LIB: &str = "lumberjack library (readers, writers, tree, transformations) with its real dependencies, built from /repo's working tree";
const STREAM: &str = "the byte stream under the reader (delivery sizes, interruptions, errors, end of stream)";
const SINK: &str = "the sink under the writer and the storage behind it (short writes, interruptions, errors, crash)";
const CALLER: &str = "the callers (clients taking turns, user callbacks), hash keys of the process";
const CLI: &str = "the lumberjack-conversion binary built from /repo's working tree, with the real standard library";
const OS: &str = "read, write, open, close and getrandom system calls of the process (interposed; data comes from and goes to real files and pipes in a scratch directory)";

const A_STREAM: &[&str] = &[
    "documents are drawn from the generator of the harness: words, labels and features restricted to what the format can carry",
    "the reference for the trees of a document is the generator's own model, not the code under test",
];

const A_WRITE: &[&str] = &[
    "trees are drawn from the generator of the harness: strings restricted to what the format can carry, at most one secondary edge per node",
    "storage is append-only, keeps a durable prefix and loses or zeroes a suffix of the rest in a crash",
    "a restarted writer appends behind the last complete tree",
];

const A_TREE: &[&str] = &[
    "trees and operation arguments are drawn from the generator of the harness",
    "edge labels of edges recreated by an operation may be kept or lost where the documentation does not say",
    "handles of removed nodes are used only while no new node has taken their index",
];

const A_DET: &[&str] = &[
    "documents and transformations are drawn from the generator of the harness",
    "threads are switched at reads, writes and callbacks; between them one thread runs at a time",
];

const A_MEM: &[&str] = &[
    "heap use is counted per thread in a wrapper around the system allocator, for the process by the interposed malloc",
    "the first repetitions are taken as the measure for the later ones",
];

const A_CLI: &[&str] = &[
    "treebanks and options are drawn from the generator of the harness; strings are restricted to what both formats can carry",
    "the process only uses open, read, write, readv, writev and close on its files",
    "a tag-encoded sentence that is cut between two tokens cannot be told from a complete one and is not counted as truncated",
];

macro_rules! p {
    ($id:expr, $run:expr, $q:expr, $t:expr, $level:expr, $files:expr, $rule:expr, $real:expr, $stub:expr, $assume:expr) => {
        Prop {
            id: $id,
            run: $run,
            quick: $q,
            thorough: $t,
            level: $level,
            files: $files,
            rule: $rule,
            real: $real,
            stub: $stub,
            assume: $assume,
        }
    };
}

pub static PROPS: &[Prop] = &[
    p!("S01", props_stream::s01, 200_000, 6_000_000, "exploration", false,
        "a random document of a random layout is delivered in 1-3 random ways; non-trivial: more than two read calls were needed",
        LIB, STREAM, A_STREAM),
    p!("S02", props_stream::s02, 240_000, 6_000_000, "fault_enumeration", false,
        "a random document, 1-3 read errors of random kind, offset and duration; non-trivial: a read error fired or another fault was injected",
        LIB, STREAM, A_STREAM),
    p!("S03", props_stream::s03, 240_000, 6_000_000, "fault_enumeration", false,
        "a random document cut at 1-4 random offsets; non-trivial: the cut lies before the end",
        LIB, STREAM, A_STREAM),
    p!("S04", props_stream::s04, 320_000, 8_000_000, "fault_enumeration", false,
        "a random document with 1-20 damages (bytes, lines, blocks, numbers); every run is non-trivial",
        LIB, STREAM, A_STREAM),
    p!("S05", props_stream::s05, 240_000, 6_000_000, "exploration", false,
        "a random document delivered in a random way, reads observed; non-trivial: a tree was yielded before the rest had arrived, or a fault was injected",
        LIB, STREAM, A_STREAM),
    p!("S06", props_stream::s06, 320_000, 8_000_000, "fault_enumeration", false,
        "a random document with 1-20 damages (bytes, lines, blocks, numbers), read against an independent reading of the damaged text; every run is non-trivial",
        LIB, STREAM, A_STREAM),
    p!("W01", props_write::w01, 240_000, 6_000_000, "fault_enumeration", false,
        "1-14 random trees written 1-4 times with random short writes, interruptions and a hard fault at a random byte; non-trivial: a write failed or another fault was injected",
        LIB, SINK, A_WRITE),
    p!("W02", props_write::w02, 120_000, 5_000_000, "fault_enumeration", false,
        "random trees appended in 1-3 epochs, each ended by a crash at a random byte at or behind the durable end; every run is non-trivial",
        LIB, SINK, A_WRITE),
    p!("W03", props_write::w03, 150_000, 5_000_000, "fault_enumeration", false,
        "random continuous trees appended in 1-3 epochs, each ended by a crash at a random byte at or behind the durable end; every run is non-trivial",
        LIB, SINK, A_WRITE),
    p!("W04", props_write::w04, 150_000, 6_000_000, "fault_enumeration", false,
        "random continuous trees encoded and appended in 1-3 epochs, each ended by a crash at or behind the durable end; every run is non-trivial",
        LIB, SINK, A_WRITE),
    p!("W05", props_write::w05, 500_000, 10_000_000, "fault_enumeration", false,
        "1-3 random tagged sentences with 1-4 (or all) tags damaged; every run is non-trivial",
        LIB, STREAM, A_STREAM),
    p!("T01", props_tree::t01, 400_000, 12_000_000, "exploration", false,
        "a random tree, 1-150 operations (valid and invalid, bulk operations with callbacks that panic); non-trivial: a bulk operation, refusal or callback panic occurred",
        LIB, CALLER, A_TREE),
    p!("T02", props_tree::t02, 400_000, 12_000_000, "exploration", false,
        "a random tree, 1-150 operations by 1-3 clients taking turns; non-trivial: two operations took effect",
        LIB, CALLER, A_TREE),
    p!("T03", props_tree::t03, 300_000, 10_000_000, "fault_enumeration", false,
        "a random tree, 1-150 operations of which 40-90 % have to be refused; non-trivial: an operation was refused",
        LIB, CALLER, A_TREE),
    p!("T04", props_tree::t04, 300_000, 6_000_000, "exploration", false,
        "a random discontinuous tree built 2-3 times under different hash keys, projectivized; non-trivial: nodes were moved",
        LIB, CALLER, A_TREE),
    p!("T05", props_tree::t05, 500_000, 12_000_000, "exploration", false,
        "a random tree, 1-25 bulk transformations in random order with edits in between; non-trivial: a transformation was applied to more than one word",
        LIB, CALLER, A_TREE),
    p!("T06", props_tree::t06, 240_000, 6_000_000, "exploration", false,
        "a random tree, 1-2 other histories of the same content under other hash keys, 1-6 changes and undos; non-trivial: another history or an undo took place",
        LIB, CALLER, A_TREE),
    p!("G01", props_det::g01, 80_000, 2_000_000, "exploration", true,
        "a random pipeline (read, transform, encode, write) repeated 2-3 times under different hash keys and heap layouts, or the conversion program in 2-3 processes; every run is non-trivial",
        LIB, CALLER, A_DET),
    p!("G02", props_det::g02, 80_000, 2_000_000, "exploration", false,
        "2-4 random pipelines interleaved at every read, write and callback, or run one after the other, or one stream of trees against each tree alone; non-trivial: threads were switched, or pipelines repeated",
        LIB, CALLER, A_DET),
    p!("G03", props_mem::g03, 90_000, 4_000_000, "exploration", true,
        "72 repetitions of a block of 1-3 random trees (possibly with a damaged line, a read error, failing writes) read, transformed and written, or of 1-6 operations that cancel each other out, or a short and a long treebank converted by the process; non-trivial: the repetitions were compared",
        LIB, CALLER, A_MEM),
    p!("C01", props_cli::c01, 50_000, 400_000, "fault_enumeration", true,
        "a random treebank and option set, one kind of fault (sink, input, truncation, malformed tree, crash, open, allocation, side files) plus short and interrupted transfers; non-trivial: a hard fault, crash or malformed input occurred",
        CLI, OS, A_CLI),
    p!("C02", props_cli::c02, 60_000, 600_000, "exploration", true,
        "a random treebank, option set and output format, converted 1-2 times over different files or standard streams and deliveries; non-trivial: more than eight system calls",
        CLI, OS, A_CLI),
];
