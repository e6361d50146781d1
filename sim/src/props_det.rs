//! G01, G02: determinism, and independence of concurrent and repeated use.

use std::sync::{Arc, Condvar, Mutex};

use lumberjack::io::{AbsoluteEncoding, Decode, Encode, ToConllx};
use lumberjack::util::LabelSet;
use lumberjack::{AnnotatePOS, Projectivize, Terminal, Tree, TreeOps, UnaryChains};
use petgraph::prelude::NodeIndex;

use crate::ctx::{fail, seed_hash_keys, sut, Ctx, Injected, Res};
use crate::ensure;
use crate::gen::{Fmt, Gen};
use crate::io::{draw_chunk, sink, source, Chunk, Hook, ReadErr, ReadPlan, SinkFault, WritePlan, HARD};
use crate::props_stream::open;
use crate::props_write::AnyWriter;
use crate::tape::Tape;
use crate::text::{gen_doc, join_lines, pick_layout, prepare_gen, Doc, Layout, Line, LineTag};

/// Everything a user can see of a tree, in the order the tree presents it.
pub fn transcript(t: &Tree) -> String {
    use std::fmt::Write;
    let mut o = String::new();
    let _ = write!(o, "root {:?} n {} proj {}; ", t.root(), t.n_terminals(), t.is_projective());
    let _ = write!(o, "t {:?} n {:?}; ", t.terminals().collect::<Vec<_>>(), t.nonterminals().collect::<Vec<_>>());
    for n in t.graph().node_indices() {
        let node = &t[n];
        let _ = write!(
            o,
            "{:?} {:?} {:?} {:?} {:?} cov {:?} kids {:?} sec {:?} desc {:?}; ",
            n,
            node.label(),
            node.terminal().map(|x| (x.form(), x.lemma())),
            node.features().map(|f| f.inner()),
            t.parent(n).map(|(p, e)| (p, e, t[e].label())),
            node.span().into_iter().collect::<Vec<_>>(),
            t.children(n).collect::<Vec<_>>(),
            t.secondary_children(n).map(|(c, e)| (c, e, t[e].label())).collect::<Vec<_>>(),
            if node.is_terminal() { vec![] } else { t.descendent_terminals(n).collect::<Vec<_>>() },
        );
    }
    o
}

fn e2s<T>(r: Result<T, failure::Error>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

/// Read, transform, encode and write; returns everything that can be observed.
fn pipeline(c: &Ctx, layout: Layout, data: &Arc<Vec<u8>>, hook: Option<Hook>) -> Vec<String> {
    let mut out = Vec::new();
    let mut plan = ReadPlan::draw(c);
    if c.chance(1, 6) {
        c.fault("read_error");
        plan.errors.push(ReadErr {
            at: c.below(data.len() + 1),
            kind: *c.pick(&HARD),
            times: 1,
        });
    }
    let give_up = if c.chance(1, 6) { c.below(4) } else { usize::MAX };
    let (src, _) = source(c, data, &plan, hook.clone());
    let mut it = open(layout, src);
    // writers that live as long as the stream
    let mut sinks = Vec::new();
    for f in [Fmt::Negra, Fmt::Simple, Fmt::Ptb, Fmt::TueBa, Fmt::Tags] {
        if !c.chance(1, 2) {
            continue;
        }
        let mut wp = WritePlan { chunk: draw_chunk(c), eintr: 0, faults: Vec::new() };
        if c.chance(1, 10) {
            wp.faults.push((c.below(400), SinkFault::Error(*c.pick(&HARD)), u32::MAX));
        }
        if wp.chunk == Chunk::Byte {
            wp.chunk = Chunk::Fixed(16);
        }
        let (w, st) = sink(c, &wp, hook.clone());
        sinks.push((f, AnyWriter::new(f, w), st));
    }
    let labels = ["S", "NP", "VP", "X", "PP", "SIMPX", "NX", "L", "A"];
    let yield_ = |what: &'static str| {
        if let Some(h) = &hook {
            h(what)
        }
    };
    let mut items = 0;
    loop {
        if items == give_up {
            // the reader is dropped half way
            c.fault("abandoned");
            break;
        }
        let r = sut(|| it.next());
        let t = match r {
            Ok(None) => break,
            Ok(Some(Ok(t))) => t,
            Ok(Some(Err(e))) => {
                out.push(format!("error {}", e));
                items += 1;
                if items > 200 {
                    break;
                }
                continue;
            }
            Err(p) => {
                out.push(format!("reader panicked {}", p.msg));
                break;
            }
        };
        items += 1;
        let mut t = t;
        out.push(format!("read {}", transcript(&t)));
        for _ in 0..c.below(5) {
            let kind = c.below(16);
            let set: std::collections::HashSet<String> =
                labels.iter().filter(|_| c.chance(1, 3)).map(|s| s.to_string()).collect();
            let set = if c.chance(1, 2) { LabelSet::Positive(set) } else { LabelSet::Negative(set) };
            let die_at = if c.chance(1, 10) { c.range(1, 4) } else { 0 };
            let calls = std::cell::Cell::new(0);
            let cb = |t: &Tree, n: NodeIndex| {
                yield_("callback");
                calls.set(calls.get() + 1);
                if calls.get() == die_at {
                    c.fault("callback_panic");
                    std::panic::panic_any(Injected);
                }
                set.matches(t[n].label())
            };
            let pick_t = c.below(t.n_terminals());
            let extra = c.below(1000);
            let r = sut(|| match kind {
                0 => format!("filter {:?}", e2s(t.filter_nonterminals(|t, n| cb(t, n)))),
                1 => {
                    let root = t.root();
                    t.reattach_terminals(root, |t, n| cb(t, n));
                    "reattach".to_string()
                }
                2 => format!(
                    "insert {:?}",
                    e2s(t.insert_intermediate(|t, n| if cb(t, n) { Some("INS".to_string()) } else { None }))
                ),
                3 => format!("parent tag {:?}", e2s(t.annotate_parent_tag("pt"))),
                4 => {
                    t.project_tag_set("ts", |t, n| cb(t, n));
                    "project tags".to_string()
                }
                5 => {
                    t.project_ids("id", |t, n| cb(t, n));
                    "project ids".to_string()
                }
                6 => format!("indices {:?}", t.project_nt_indices(|t, n| cb(t, n))),
                7 | 8 => format!(
                    "projectivize {:?}",
                    t.projectivize().map(|v| v
                        .into_iter()
                        .map(|(a, e, b)| (a, e.label().map(str::to_string), e.is_primary(), b))
                        .collect::<Vec<_>>())
                ),
                9 => format!("collapse {:?}", e2s(t.collapse_unary_chains("_"))),
                10 => format!("restore {:?}", e2s(t.restore_unary_chains("_"))),
                11 => {
                    let n = t.n_terminals();
                    format!("pos {:?}", e2s(t.annotate_pos((0..n).map(|i| format!("P{}", i % 3)))))
                }
                12 => {
                    let ts: Vec<NodeIndex> = t.terminals().collect();
                    let n = t.n_terminals();
                    t.move_terminal(ts[pick_t], extra % n);
                    "move".to_string()
                }
                13 => {
                    let nts: Vec<NodeIndex> = t.nonterminals().collect();
                    if nts.is_empty() {
                        "none".to_string()
                    } else {
                        let n = t.n_terminals();
                        let p = nts[extra % nts.len()];
                        format!("insert {:?}", t.insert_terminal(p, Terminal::new("new", "NEW", extra % (n + 1))))
                    }
                }
                14 => {
                    let ns: Vec<NodeIndex> = t.graph().node_indices().collect();
                    let n = ns[extra % ns.len()];
                    format!("remove {:?}", e2s(t.remove_node(n).map(|x| x.label().to_string())))
                }
                _ => {
                    let mut o = format!(
                        "encode {:?} {:?}",
                        e2s(t.encode_absolute().map(|e| format!("{:?}", *e))),
                        e2s(t.encode_relative().map(|e| format!("{:?}", *e)))
                    );
                    if let Ok(r) = t.encode_relative() {
                        let mut ts: Vec<NodeIndex> = t.terminals().collect();
                        ts.sort_by_key(|n| t[*n].span().bounds().0);
                        let words: Vec<Terminal> =
                            ts.iter().map(|n| t[*n].terminal().unwrap().clone()).collect();
                        let abs = AbsoluteEncoding::try_from_relative(r).unwrap_or_fix();
                        let mut d = Tree::decode(abs, words);
                        let r = e2s(d.remove_dummy_nodes());
                        o += &format!(" decoded {:?} {}", r, transcript(&d));
                    }
                    o
                }
            });
            out.push(match r {
                Ok(s) => s,
                Err(p) if p.injected => "callback panicked".into(),
                Err(p) => format!("panicked {}", p.msg),
            });
            out.push(transcript(&t));
        }
        if c.chance(1, 3) {
            let r = sut(|| format!("{:?} {:?}", e2s(t.annotate_absolute()), e2s(t.annotate_relative())));
            out.push(r.unwrap_or_else(|p| format!("panicked {}", p.msg)));
        }
        if c.chance(1, 4) {
            let s = sut(|| t.to_conllx().to_string());
            out.push(s.unwrap_or_else(|p| format!("panicked {}", p.msg)));
        }
        for (f, w, st) in &mut sinks {
            let r = sut(|| e2s(w.write(&t)));
            out.push(match r {
                Ok(r) => format!("{} {:?} {}", f.name(), r, st.lock().unwrap().bytes.len()),
                Err(p) => format!("{} panicked {}", f.name(), p.msg),
            });
        }
    }
    for (f, _, st) in &sinks {
        out.push(format!("{} {}", f.name(), String::from_utf8_lossy(&st.lock().unwrap().bytes)));
    }
    out
}

fn small_doc(ctx: &Ctx, max_trees: usize) -> Doc {
    let layout = pick_layout(ctx, true);
    let mut g = Gen::swarm(ctx, layout.fmt());
    prepare_gen(ctx, &mut g, layout);
    g.long = false;
    g.max_terms = g.max_terms.min(12);
    let n = ctx.range(1, max_trees);
    let mut doc = gen_doc(ctx, &g, layout, n);
    if ctx.chance(1, 8) {
        // broken input must not matter either
        ctx.fault("cut");
        let k = ctx.below(doc.bytes.len() + 1);
        doc.bytes.truncate(k);
    }
    ctx.hash_bytes(&doc.bytes);
    ctx.note(|| String::from_utf8_lossy(&doc.bytes).into_owned());
    doc
}

fn first_diff(a: &[String], b: &[String]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            let cut = |s: Option<&String>| match s {
                None => "nothing".to_string(),
                Some(s) => s.chars().take(1500).collect(),
            };
            let prev = if i > 0 { cut(a.get(i - 1)) } else { String::new() };
            return Some(format!("step {}:\n{}\nversus\n{}\nafter {}", i, cut(x), cut(y), prev));
        }
    }
    None
}

/// Run a pipeline alone on a fresh thread under the given hash keys.
fn solo(doc: &Doc, sub: u64, keys: u64, junk: usize) -> Res<(Vec<String>, Vec<(&'static str, u64)>)> {
    let (layout, data) = (doc.layout, Arc::new(doc.bytes.clone()));
    std::thread::spawn(move || {
        seed_hash_keys(keys);
        // another layout of the heap
        let mut hold = Vec::new();
        for i in 0..junk {
            hold.push(vec![0u8; 24 + (i * 40) % 700]);
            if i % 3 == 0 {
                hold.swap_remove(i / 2 % hold.len());
            }
        }
        let c = Ctx::new(Tape::random(sub), false, None);
        let r = pipeline(&c, layout, &data, None);
        let f = c.lock().faults.iter().map(|(k, v)| (*k, *v)).collect();
        (r, f)
    })
    .join()
    .or_else(|_| fail("panic", "a pipeline thread died"))
}

pub fn g01(ctx: &Ctx) -> Res {
    if ctx.chance(1, 40) {
        return crate::props_cli::same_everywhere(ctx);
    }
    let doc = small_doc(ctx, 4);
    let sub = ctx.draw(1 << 40);
    let first = solo(&doc, sub, ctx.draw(1 << 40), 0)?.0;
    for _ in 0..ctx.range(1, 2) {
        let keys = ctx.draw(1 << 40);
        let junk = ctx.below(60);
        ctx.fault("hash_keys_changed");
        ctx.event("variant", keys, junk as u64);
        let (r, _) = solo(&doc, sub, keys, junk)?;
        if let Some(d) = first_diff(&first, &r) {
            return fail("nondeterminism", format!("the result depends on hash keys: {}", d));
        }
    }
    Ok(())
}

// ---- G02 -------------------------------------------------------------------

struct Turn {
    current: usize,
    alive: Vec<bool>,
    switches: u64,
}

/// Hands the right to run from thread to thread.
struct Sched {
    ctx: Ctx,
    turn: Mutex<Turn>,
    cond: Condvar,
    stickiness: u64,
}

impl Sched {
    /// Let the scheduler pick who runs next and wait for the next turn.
    fn yield_now(&self, me: usize, done: bool) {
        let mut t = self.turn.lock().unwrap();
        if done {
            t.alive[me] = false;
        }
        let alive: Vec<usize> = (0..t.alive.len()).filter(|i| t.alive[*i]).collect();
        if alive.is_empty() {
            t.current = usize::MAX;
            self.cond.notify_all();
            return;
        }
        let stay = !done && !self.ctx.chance(1, self.stickiness);
        if !stay {
            let next = *self.ctx.pick(&alive);
            if next != me {
                t.switches += 1;
                self.ctx.event("switch", me as u64, next as u64);
            }
            t.current = next;
            self.cond.notify_all();
        }
        while !done && t.current != me {
            t = self.cond.wait(t).unwrap();
        }
    }
}

fn concurrent(ctx: &Ctx, jobs: &[(Doc, u64, u64)]) -> Res {
    let mut alone = Vec::new();
    for (d, sub, keys) in jobs {
        alone.push(solo(d, *sub, *keys, 0)?);
    }
    for (_, f) in &alone {
        for (k, v) in f {
            for _ in 0..*v {
                ctx.fault(k);
            }
        }
    }
    let sched = Arc::new(Sched {
        ctx: ctx.clone(),
        turn: Mutex::new(Turn {
            current: 0,
            alive: vec![true; jobs.len()],
            switches: 0,
        }),
        cond: Condvar::new(),
        stickiness: *ctx.pick(&[1, 2, 5, 20]),
    });
    let mut hs = Vec::new();
    for (i, (d, sub, keys)) in jobs.iter().enumerate() {
        let (layout, data, sub, keys) = (d.layout, Arc::new(d.bytes.clone()), *sub, *keys);
        let s = sched.clone();
        hs.push(std::thread::spawn(move || {
            {
                let mut t = s.turn.lock().unwrap();
                while t.current != i {
                    t = s.cond.wait(t).unwrap();
                }
            }
            seed_hash_keys(keys);
            let c = Ctx::new(Tape::random(sub), false, None);
            let s2 = s.clone();
            let hook: Hook = Arc::new(move |_| s2.yield_now(i, false));
            let r = sut(|| pipeline(&c, layout, &data, Some(hook)));
            s.yield_now(i, true);
            r.map_err(|p| p.msg)
        }));
    }
    let mut got = Vec::new();
    for h in hs {
        match h.join() {
            Ok(Ok(r)) => got.push(r),
            Ok(Err(m)) => return fail("panic", m),
            Err(_) => return fail("panic", "a pipeline thread died"),
        }
    }
    if sched.turn.lock().unwrap().switches > 1 {
        ctx.nontrivial();
        ctx.probe("interleaved");
    }
    for (i, r) in got.iter().enumerate() {
        if let Some(d) = first_diff(&alone[i].0, r) {
            return fail("interference", format!("pipeline {} gives another result than alone: {}", i, d));
        }
    }
    Ok(())
}

/// One pipeline after the other on one thread.
fn repeated(ctx: &Ctx, jobs: &[(Doc, u64, u64)]) -> Res {
    let mut alone = Vec::new();
    for (d, sub, keys) in jobs {
        alone.push(solo(d, *sub, *keys, 0)?.0);
    }
    let list: Vec<(Layout, Arc<Vec<u8>>, u64)> =
        jobs.iter().map(|(d, s, _)| (d.layout, Arc::new(d.bytes.clone()), *s)).collect();
    let keys = ctx.draw(1 << 40);
    let got = std::thread::spawn(move || {
        seed_hash_keys(keys);
        list.iter()
            .map(|(l, d, s)| {
                let c = Ctx::new(Tape::random(*s), false, None);
                pipeline(&c, *l, d, None)
            })
            .collect::<Vec<_>>()
    })
    .join()
    .or_else(|_| fail("panic", "a pipeline thread died"))?;
    ctx.nontrivial();
    ctx.probe("repeated");
    for (i, r) in got.iter().enumerate() {
        if let Some(d) = first_diff(&alone[i], r) {
            return fail("interference", format!("pipeline {} gives another result than alone: {}", i, d));
        }
    }
    Ok(())
}

/// A tree is read the same alone and behind other trees; text is written the
/// same by a fresh and by a used writer.
fn history(ctx: &Ctx) -> Res {
    let layout = pick_layout(ctx, true);
    let mut g = Gen::swarm(ctx, layout.fmt());
    prepare_gen(ctx, &mut g, layout);
    g.max_terms = g.max_terms.min(24);
    let n = ctx.range(2, 6);
    let doc = gen_doc(ctx, &g, layout, n);
    ctx.hash_bytes(&doc.bytes);
    let read = |bytes: Vec<u8>| -> Res<Vec<Tree>> {
        let data = Arc::new(bytes);
        let (src, _) = source(ctx, &data, &ReadPlan::plain(), None);
        let mut it = open(layout, src);
        let mut v = Vec::new();
        loop {
            match sut(|| it.next()) {
                Ok(None) => return Ok(v),
                Ok(Some(Ok(t))) => v.push(t),
                // not readable at all: another property
                _ => return Ok(Vec::new()),
            }
        }
    };
    let all = read(doc.bytes.clone())?;
    if all.len() != n {
        return Ok(());
    }
    ctx.nontrivial();
    for k in 0..n {
        let mut lines: Vec<Line> = doc
            .lines
            .iter()
            .filter(|l| matches!(l.tag, LineTag::Tree(i) | LineTag::Last(i) if i == k))
            .cloned()
            .collect();
        if layout == Layout::Negra && lines.is_empty() {
            lines = Vec::new();
        }
        let one = read(join_lines(&lines, doc.eol, true))?;
        if one.len() != 1 {
            continue;
        }
        ctx.event("alone", k as u64, lines.len() as u64);
        let (a, b) = (transcript(&all[k]), transcript(&one[0]));
        ensure!(
            a == b,
            "history",
            "tree {} is read differently behind {} others:\n{}\nversus\n{}",
            k,
            k,
            a,
            b
        );
    }
    for f in [Fmt::Negra, Fmt::Simple, Fmt::Ptb, Fmt::TueBa, Fmt::Tags] {
        let (w, st) = sink(ctx, &WritePlan::plain(), None);
        let mut w = AnyWriter::new(f, w);
        let sep = f == Fmt::Tags;
        for (k, t) in all.iter().enumerate() {
            let from = st.lock().unwrap().bytes.len();
            let r = sut(|| e2s(w.write(t)));
            let (w1, st1) = sink(ctx, &WritePlan::plain(), None);
            let mut w1 = AnyWriter::new(f, w1);
            let r1 = sut(|| e2s(w1.write(t)));
            let (Ok(r), Ok(r1)) = (r, r1) else { return Ok(()) };
            ensure!(r == r1, "history", "{}: tree {}: {:?} versus {:?}", f.name(), k, r, r1);
            let norm = |b: &[u8]| -> String {
                let s = String::from_utf8_lossy(b).into_owned();
                if f == Fmt::Negra && t[t.root()].features().and_then(|x| x.get_val("sentence_id")).is_none() {
                    s.lines()
                        .map(|l| {
                            if l.starts_with("#BOS ") || l.starts_with("#EOS ") {
                                let mut p = l.splitn(3, ' ');
                                format!("{} N {}", p.next().unwrap(), { p.next(); p.next().unwrap_or("") })
                            } else {
                                l.to_string()
                            }
                        })
                        .collect::<Vec<_>>()
                        .join("\n")
                } else if sep {
                    s.trim_matches('\n').to_string()
                } else {
                    s
                }
            };
            let a = norm(&st.lock().unwrap().bytes[from..]);
            let b = norm(&st1.lock().unwrap().bytes);
            ensure!(a == b, "history", "{}: tree {} is written {:?} alone and {:?} behind others", f.name(), k, b, a);
        }
    }
    Ok(())
}

pub fn g02(ctx: &Ctx) -> Res {
    match ctx.weighted(&[6, 3, 3]) {
        0 => {
            let k = ctx.range(2, 4);
            let mut jobs: Vec<(Doc, u64, u64)> = Vec::new();
            for i in 0..k {
                // sometimes the very same work several times
                if i > 0 && ctx.chance(1, 4) {
                    let (l, b) = (jobs[0].0.layout, jobs[0].0.bytes.clone());
                    let mut d = small_doc(ctx, 1);
                    d.layout = l;
                    d.bytes = b;
                    let s = jobs[0].1;
                    jobs.push((d, s, ctx.draw(1 << 40)));
                    continue;
                }
                let d = small_doc(ctx, 3);
                jobs.push((d, ctx.draw(1 << 40), ctx.draw(1 << 40)));
            }
            concurrent(ctx, &jobs)
        }
        1 => {
            let k = ctx.range(2, 4);
            let mut jobs = Vec::new();
            for _ in 0..k {
                let d = small_doc(ctx, 3);
                jobs.push((d, ctx.draw(1 << 40), ctx.draw(1 << 40)));
            }
            repeated(ctx, &jobs)
        }
        _ => history(ctx),
    }
}
