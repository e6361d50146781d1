//! G03: memory and work per tree do not grow with what was processed before.

use std::alloc::{GlobalAlloc, Layout as MemLayout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

use lumberjack::io::{AbsoluteEncoding, Decode, Encode, ToConllx};
use lumberjack::util::LabelSet;
use lumberjack::{AnnotatePOS, Projectivize, Terminal, Tree, TreeOps, UnaryChains};
use petgraph::graph::NodeIndex;

use crate::ctx::{sut, Ctx, Res};
use crate::ensure;
use crate::gen::{Fmt, Gen, Kind};
use crate::io::Source;
use crate::observe::{build, BuildCfg};
use crate::props_stream::{open, show_doc};
use crate::props_write::AnyWriter;
use crate::text::{gen_doc, pick_layout, prepare_gen, Layout, LineTag};

// ---- heap ------------------------------------------------------------------

/// The system allocator, with the heap of each thread counted.
pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn count(d: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        if d > 0 {
            TOTAL.with(|t| t.set(t.get() + d as u64));
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: MemLayout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: MemLayout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: MemLayout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: MemLayout, n: usize) -> *mut u8 {
        count(n as i64);
        count(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}

/// Heap use of one cycle.
#[derive(Clone, Copy, Debug)]
struct Use {
    /// Live at the end.
    live: i64,
    /// Largest amount live.
    peak: i64,
    /// Bytes allocated.
    work: u64,
}

fn begin() -> u64 {
    LIVE.with(|l| PEAK.with(|p| p.set(l.get())));
    TOTAL.with(|t| t.get())
}

fn end(start: u64, base: i64) -> Use {
    Use {
        live: LIVE.with(|l| l.get()) - base,
        peak: PEAK.with(|p| p.get()) - base,
        work: TOTAL.with(|t| t.get()) - start,
    }
}

fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// All cycles did the same; later ones must not need more. What is counted
/// grows with every doubling of the number of cycles, not once at some point:
/// a table may still settle on its size.
fn flat(what: &str, u: &[Use]) -> Res {
    let k = u.len();
    let m = |a: usize, b: usize, f: fn(&Use) -> i64| u[a..b].iter().map(f).max().unwrap();
    for (name, f, slack) in [
        ("live heap", (|x: &Use| x.live) as fn(&Use) -> i64, 16),
        ("peak heap", |x: &Use| x.peak, 24),
        ("allocated bytes", |x: &Use| x.work as i64, 48),
    ] {
        let v = [m(k / 8, k / 4, f), m(k / 4, k / 2, f), m(k / 2, k, f)];
        let more = |a: i64, b: i64| b > a + a / 16 * (name == "allocated bytes") as i64 + slack;
        ensure!(
            !more(v[0], v[1]) || !more(v[1], v[2]),
            "grows",
            "{}: {} of one cycle is at most {}, {} and {} bytes after {}, {} and {} cycles",
            what,
            name,
            v[0],
            v[1],
            v[2],
            k / 4,
            k / 2,
            k
        );
    }
    Ok(())
}

// ---- endless streams -------------------------------------------------------

/// A text some of whose words, labels and ids are different in every copy, but
/// of the same length.
pub struct Varied {
    text: Vec<u8>,
    /// Offset, number of the word, base and first digit.
    slots: Vec<(usize, usize, usize, u8)>,
}

const SLOT: usize = 7;

impl Varied {
    pub fn new(ctx: &Ctx, block: &[u8], layout: Layout) -> Varied {
        let (forms, labels, ids) = if ctx.chance(1, 5) {
            (false, false, false)
        } else {
            (ctx.chance(2, 3), ctx.chance(1, 3), ctx.chance(2, 3))
        };
        let mut v = Varied { text: Vec::new(), slots: Vec::new() };
        let mut known: Vec<Vec<u8>> = Vec::new();
        for line in block.split_inclusive(|b| *b == b'\n') {
            let mut i = 0;
            let mut column = 0;
            let header = line.starts_with(b"#BOS") || line.starts_with(b"#EOS");
            while i < line.len() {
                let stop = |b: &u8| b.is_ascii_whitespace() || (!matches!(layout, Layout::Negra | Layout::Tags(_)) && b"()".contains(b));
                let n = line[i..].iter().position(stop).unwrap_or(line.len() - i);
                if n == 0 {
                    v.text.push(line[i]);
                    i += 1;
                    continue;
                }
                let tok = &line[i..i + n];
                let change = match layout {
                    Layout::Negra if header => ids && column == 1,
                    Layout::Negra => {
                        column == 0 && tok[0] != b'#' && forms
                            || column == 2 && line[0] == b'#' && labels && !tok.contains(&b'=')
                    }
                    Layout::Tags(_) => column == 1 && forms,
                    _ => {
                        let open = i > 0 && line[i - 1] == b'(';
                        let close = line.get(i + n) == Some(&b')');
                        open && labels || !open && close && forms
                    }
                };
                if change && tok.iter().all(|b| b.is_ascii_alphanumeric()) {
                    let k = known.iter().position(|x| x == tok).unwrap_or(known.len());
                    if k == known.len() {
                        known.push(tok.to_vec());
                    }
                    let (base, zero) = if header { (10, b'0') } else { (26, b'a') };
                    v.slots.push((v.text.len(), k, base, zero));
                    v.text.push(if header { b'1' } else { b'q' });
                    v.text.extend_from_slice(&[zero; SLOT - 1]);
                } else {
                    v.text.extend_from_slice(tok);
                }
                column += 1;
                i += n;
            }
        }
        v.fill(0);
        v
    }

    /// The text of copy `n`.
    pub fn fill(&mut self, n: usize) -> &[u8] {
        for (at, k, base, zero) in &self.slots {
            // (words differ within a copy, and from those of all other copies)
            let mut x = n * 100 + k % 100;
            for b in self.text[*at + 1..*at + SLOT].iter_mut().rev() {
                *b = zero + (x % base) as u8;
                x /= base;
            }
        }
        &self.text
    }

    pub fn len(&self) -> usize {
        self.text.len()
    }
}

/// One block of text again and again; no choices on the way.
struct Loop {
    block: Varied,
    cycle: usize,
    left: usize,
    pos: usize,
    chunks: Vec<usize>,
    calls: usize,
    /// Every how many calls a read is interrupted.
    eintr: usize,
    /// Offset in the block at which reading fails.
    error_at: Option<usize>,
    failed: bool,
}

impl Read for Loop {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.eintr > 0 && self.calls % self.eintr == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        if self.pos == self.block.len() {
            if self.left == 0 {
                return Ok(0);
            }
            self.left -= 1;
            self.block.fill(self.cycle);
            self.cycle += 1;
            self.pos = 0;
            // reads never cross the end of a block: every block is delivered alike
            self.calls = 0;
            self.failed = false;
        }
        let mut n = (self.block.len() - self.pos).min(buf.len());
        if let Some(e) = self.error_at.filter(|_| !self.failed) {
            if e == self.pos {
                self.failed = true;
                return Err(ErrorKind::TimedOut.into());
            }
            if e > self.pos {
                n = n.min(e - self.pos);
            }
        }
        n = n.min(self.chunks[self.calls % self.chunks.len()]);
        buf[..n].copy_from_slice(&self.block.text[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A sink that forgets, and fails when told to.
struct Drain {
    short: usize,
    fail: Arc<AtomicBool>,
}

impl Write for Drain {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.fail.load(Ordering::Relaxed) {
            return Err(ErrorKind::WriteZero.into());
        }
        Ok(b.len().min(self.short))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn chunks(ctx: &Ctx) -> Vec<usize> {
    (0..ctx.range(1, 3)).map(|_| *ctx.pick(&[8192usize, 1, 5, 40, 300])).collect()
}

/// The steps a stage applies to every tree.
fn work(t: &mut Tree, steps: &[(u64, LabelSet)]) {
    for (k, set) in steps {
        match k {
            0 => drop(t.filter_nonterminals(|t, n| set.matches(t[n].label()))),
            1 => {
                let r = t.root();
                t.reattach_terminals(r, |t, n| set.matches(t[n].label()));
            }
            2 => drop(t.insert_intermediate(|t, n| {
                if set.matches(t[n].label()) {
                    Some("INS".to_string())
                } else {
                    None
                }
            })),
            3 => drop(t.annotate_parent_tag("pt")),
            4 => t.project_tag_set("ts", |t, n| set.matches(t[n].label())),
            5 => t.project_ids("id", |t, n| set.matches(t[n].label())),
            6 => drop(t.project_nt_indices(|t, n| set.matches(t[n].label()))),
            7 => drop(t.projectivize()),
            8 => drop(t.collapse_unary_chains("_")),
            9 => drop(t.restore_unary_chains("_")),
            10 => {
                let n = t.n_terminals();
                drop(t.annotate_pos((0..n).map(|i| format!("P{}", i % 3))));
            }
            11 => drop(t.annotate_absolute()),
            12 => drop(t.annotate_relative()),
            13 => drop(t.to_conllx()),
            14 => drop(t.clone() == *t),
            _ => {
                if let Ok(r) = t.encode_relative() {
                    let mut ts: Vec<NodeIndex> = t.terminals().collect();
                    ts.sort_by_key(|n| t[*n].span().bounds().0);
                    let words: Vec<Terminal> = ts.iter().map(|n| t[*n].terminal().unwrap().clone()).collect();
                    let mut d = Tree::decode(AbsoluteEncoding::try_from_relative(r).unwrap_or_fix(), words);
                    drop(d.remove_dummy_nodes());
                }
            }
        }
    }
}

fn steps(ctx: &Ctx) -> Vec<(u64, LabelSet)> {
    (0..ctx.below(5))
        .map(|_| {
            let set: HashSet<String> = ["S", "NP", "VP", "X", "N", "DET"]
                .iter()
                .filter(|_| ctx.chance(1, 3))
                .map(|s| s.to_string())
                .collect();
            let set = if ctx.chance(1, 2) { LabelSet::Positive(set) } else { LabelSet::Negative(set) };
            (ctx.draw(16), set)
        })
        .collect()
}

fn stream(ctx: &Ctx) -> Res {
    let layout = pick_layout(ctx, true);
    let mut g = Gen::swarm(ctx, layout.fmt());
    prepare_gen(ctx, &mut g, layout);
    g.max_terms = g.max_terms.min(12);
    g.deep = false;
    let n = ctx.range(1, 3);
    let mut doc = gen_doc(ctx, &g, layout, n);
    let mut damaged = false;
    if ctx.chance(1, 3) {
        // a sentence that cannot be read in every block
        let i = ctx.below(doc.lines.len());
        if doc.lines[i].tag != LineTag::Other {
            damaged = true;
            match ctx.below(3) {
                0 => {
                    doc.lines.remove(i);
                }
                1 => {
                    let k = doc.lines[i].text.len() / 2;
                    doc.lines[i].text.truncate(k);
                }
                _ => doc.lines[i].text = b"a ) b".to_vec(),
            }
            ctx.fault("line_damaged");
        }
    }
    let mut block = crate::text::join_lines(&doc.lines, doc.eol, true);
    if matches!(layout, Layout::Tags(_)) {
        block.extend_from_slice(doc.eol);
    }
    if block.len() > 20_000 {
        return Ok(());
    }
    ctx.hash_bytes(&block);
    let block = Varied::new(ctx, &block, layout);
    ctx.note(|| format!("block of {}\n{}", layout.name(), show_doc(&block.text)));
    let cycles = 72;
    let mut error_at = None;
    if ctx.chance(1, 4) && !matches!(layout, Layout::Tags(_)) {
        error_at = Some(ctx.below(block.len()));
        ctx.fault("read_error");
    }
    let src = Loop {
        pos: block.len(),
        block,
        cycle: 0,
        left: cycles,
        chunks: chunks(ctx),
        calls: 0,
        eintr: *ctx.pick(&[0, 0, 7, 30]),
        error_at,
        failed: false,
    };
    let cap = *ctx.pick(&[8192usize, 1, 64, 1000]);
    let src: Source = Box::new(io::BufReader::with_capacity(cap, src));
    // every third tree
    let failing: Arc<AtomicBool> = Arc::default();
    let mut writers: Vec<AnyWriter<Drain>> = Vec::new();
    for f in [Fmt::Negra, Fmt::Simple, Fmt::Ptb, Fmt::TueBa, Fmt::Tags] {
        if ctx.chance(1, 3) {
            let fails = ctx.chance(1, 2);
            if fails {
                ctx.fault("write_error");
            }
            let d = Drain {
                short: *ctx.pick(&[usize::MAX, 1, 10]),
                fail: if fails { failing.clone() } else { Arc::default() },
            };
            writers.push(AnyWriter::new(f, d));
        }
    }
    let steps = steps(ctx);
    ctx.note(|| format!("steps {:?}", steps.iter().map(|s| s.0).collect::<Vec<_>>()));
    let mut items: Vec<Use> = Vec::with_capacity(20_000);
    let (mut trees, mut errors) = (0u64, 0u64);
    let base = live();
    let mut it = open(layout, src);
    let r = sut(|| loop {
        let s = begin();
        let x = it.next();
        match x {
            None => break,
            Some(Ok(mut t)) => {
                trees += 1;
                failing.store(trees % 3 == 0, Ordering::Relaxed);
                work(&mut t, &steps);
                for w in &mut writers {
                    drop(w.write(&t));
                }
            }
            Some(Err(e)) => {
                errors += 1;
                drop(e);
            }
        }
        if items.len() == items.capacity() {
            break;
        }
        items.push(end(s, base));
    });
    if let Err(p) = r {
        // the business of other properties
        ctx.probe("panicked");
        ctx.note(|| p.msg);
        return Ok(());
    }
    ctx.event("stream", trees, errors);
    // (what the end of the stream leaves is not part of the repetition)
    items.pop();
    let k = items.len();
    if k < cycles / 2 {
        ctx.probe("few_items");
        return Ok(());
    }
    if !damaged && error_at.is_none() {
        ensure!(k + 1 == cycles * n, "wrong-tree", "{} items for {} trees", k + 1, cycles * n);
    }
    ctx.nontrivial();
    ctx.probe("stream");
    // group the items into 24 cycles
    let mut cyc = Vec::new();
    let size = k / 24;
    if size == 0 {
        return Ok(());
    }
    for c in items.chunks(size).filter(|c| c.len() == size) {
        cyc.push(Use {
            live: c.iter().map(|x| x.live).max().unwrap(),
            peak: c.iter().map(|x| x.peak).max().unwrap(),
            // (groups need not begin at the same place of a block)
            work: c.iter().map(|x| x.work).max().unwrap(),
        });
    }
    flat(&layout.name(), &cyc)
}

// ---- histories -------------------------------------------------------------

fn history(ctx: &Ctx) -> Res {
    let mut g = Gen::swarm(ctx, Fmt::Free);
    g.discont = ctx.chance(1, 2);
    g.max_terms = g.max_terms.min(24);
    g.sec = true;
    let m = g.tree(ctx);
    let p = build(ctx, &m, BuildCfg { shuffle: ctx.chance(1, 2), scramble: false })?;
    let mut t = p.tree;
    ctx.hash_bytes(m.canon().show().as_bytes());
    let nts: Vec<NodeIndex> = t.nonterminals().collect();
    let nodes: Vec<NodeIndex> = t.graph().node_indices().filter(|n| *n != t.root()).collect();
    if nts.is_empty() || nodes.is_empty() {
        return Ok(());
    }
    // operations that cancel each other out
    let ops: Vec<(u64, usize, usize)> = (0..ctx.range(1, 6))
        .map(|_| (ctx.draw(9), ctx.below(1 << 16), ctx.below(1 << 16)))
        .collect();
    let label = g.word(ctx, Kind::Label);
    ctx.note(|| format!("{}operations {:?}", m.canon().show(), ops));
    let base = live();
    let mut cyc: Vec<Use> = Vec::with_capacity(100);
    let refused = Cell::new(0u64);
    let r = sut(|| {
        for _ in 0..72 {
            let s = begin();
            for (k, a, b) in &ops {
                let (n, x) = (nodes[a % nodes.len()], nts[b % nts.len()]);
                match k {
                    0 => {
                        let i = t.insert_terminal(x, Terminal::new("w", "W", a % (t.n_terminals() + 1)));
                        drop(t.remove_node(i));
                    }
                    1 => {
                        let i = t.insert_unary_above(n, label.as_str());
                        drop(t.remove_node(i));
                    }
                    2 => {
                        if let Ok(i) = t.insert_unary_below(x, label.as_str()) {
                            drop(t.remove_node(i));
                        }
                    }
                    3 => {
                        let (p, e) = t.parent(n).expect("parent");
                        match t.reattach_node(x, e) {
                            Ok((e, _)) => drop(t.reattach_node(p, e)),
                            Err(_) => refused.set(refused.get() + 1),
                        }
                    }
                    4 => {
                        let e = t.add_secondary_edge(x, n, Some(label.as_str()));
                        drop(t.remove_secondary_edge(e));
                    }
                    5 => {
                        let ts: Vec<NodeIndex> = t.terminals().collect();
                        let w = ts[a % ts.len()];
                        let i = t[w].span().start;
                        t.move_terminal(w, b % ts.len());
                        t.move_terminal(w, i);
                    }
                    6 => {
                        if let Ok(i) = t.push_terminal("w", "W") {
                            drop(t.remove_node(i));
                        }
                    }
                    7 => t.project_ids("id", |t, n| !t[n].label().is_empty()),
                    _ => {
                        drop(t.annotate_parent_tag("pt"));
                        drop(t.collapse_unary_chains("_"));
                        drop(t.restore_unary_chains("_"));
                    }
                }
            }
            cyc.push(end(s, base));
        }
    });
    ctx.event("history", refused.get(), t.graph().node_count() as u64);
    if let Err(p) = r {
        ctx.probe("panicked");
        ctx.note(|| p.msg);
        return Ok(());
    }
    ctx.nontrivial();
    ctx.probe("history");
    flat("operations that cancel each other out", &cyc)
}

pub fn g03(ctx: &Ctx) -> Res {
    match ctx.weighted(&[60, 30, 4]) {
        0 => stream(ctx),
        1 => history(ctx),
        _ => crate::props_cli::flat_process(ctx),
    }
}

