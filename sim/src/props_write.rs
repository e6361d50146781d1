//! W01-W05: writers over simulated sinks, storage that crashes, damaged tags.

use std::io::Write;
use std::sync::Arc;

use conllx::graph::Sentence;
use conllx::io::{ReadSentence, Reader, WriteSentence, Writer};
use conllx::token::{Features, Token};
use failure::Error;
use lumberjack::io::{AbsoluteEncoding, Decode, Encode, RelativeEncoding, ToConllx, TryFromConllx};
use lumberjack::io::NegraWriter;
use lumberjack::{PTBWriter, Terminal, Tree, UnaryChains, WriteTree};

use crate::ctx::{fail, sut_ok, Ctx, Res};
use crate::ensure;
use crate::gen::{Fmt, Gen};
use crate::io::{draw_chunk, sink, source, Chunk, ReadPlan, SimWriter, SinkFault, WritePlan, HARD};
use crate::model::{diff, Canon, MTree};
use crate::modelops;
use crate::observe::{build, observe_wf, BuildCfg, Pair};
use crate::props_stream::{next_item, open, show_doc};
use crate::text::{as_read, emit_tags, expressible, feats_string, parse_bracket, parse_conll, parse_negra, Layout};

/// A writer of any format.
pub enum AnyWriter<W: Write> {
    Negra(NegraWriter<W>),
    Bracket(PTBWriter<W>),
    Conll(Writer<W>),
}

impl<W: Write> AnyWriter<W> {
    pub fn new(fmt: Fmt, w: W) -> AnyWriter<W> {
        match fmt {
            Fmt::Negra => AnyWriter::Negra(NegraWriter::new(w)),
            Fmt::Tags => AnyWriter::Conll(Writer::new(w)),
            f => AnyWriter::Bracket(PTBWriter::new(w, f.lib())),
        }
    }
    pub fn write(&mut self, t: &Tree) -> Result<(), Error> {
        match self {
            AnyWriter::Negra(w) => w.write_tree(t),
            AnyWriter::Bracket(w) => w.write_tree(t),
            AnyWriter::Conll(w) => w.write_tree(t),
        }
    }
}

fn pick_fmt(ctx: &Ctx) -> Fmt {
    *ctx.pick(&[Fmt::Negra, Fmt::Simple, Fmt::Ptb, Fmt::TueBa, Fmt::Tags])
}

fn n_trees(ctx: &Ctx, g: &mut Gen) -> usize {
    if g.max_terms > 500 {
        return ctx.range(1, 2);
    }
    let n = match ctx.weighted(&[6000, 6000, 6000, 1000, 20]) {
        0 => 1,
        1 => 2,
        2 => ctx.range(1, 5),
        3 => ctx.range(4, 14),
        _ => ctx.range(200, 600),
    };
    if n > 100 {
        g.max_terms = g.max_terms.min(3);
        g.long = false;
        g.deep = false;
    }
    if n > 5 {
        g.max_terms = g.max_terms.min(12);
    }
    n
}

fn negra_root(ctx: &Ctx, m: &mut MTree) {
    let r = m.root;
    if m.nodes[r].term {
        return;
    }
    if ctx.chance(1, 2) {
        let id = ctx.pick(&["1", "7", "20000", "0", "10", "18446744073709551615"]).to_string();
        m.nodes[r].feats.insert("sentence_id".into(), Some(id));
    }
    if ctx.chance(1, 3) {
        m.nodes[r].feats.insert("metadata".into(), Some(crate::text::metadata(ctx)));
    }
}

/// The text written for a tree judged with the harness' own parsers.
fn judge(fmt: Fmt, text: &str, m: &MTree) -> Res {
    let bad = |e: String| fail("wrong-text", format!("{} ({:?})", e, text));
    let check = |got: MTree| -> Res {
        let sid = got.nodes[got.root].feats.get("sentence_id").cloned().flatten();
        let exp = as_read(m, fmt, sid.as_deref());
        let got = got.canon();
        match diff(&exp, &[], &got) {
            Some(d) => fail(
                "wrong-text",
                format!("the text written is not the tree: {}\ntext: {}\nexpected:\n{}", d, text, exp.show()),
            ),
            None => Ok(()),
        }
    };
    match fmt {
        Fmt::Negra => match parse_negra(text) {
            Ok(mut v) if v.len() == 1 => check(v.pop().unwrap()),
            Ok(v) => bad(format!("{} sentences instead of one", v.len())),
            Err(e) => bad(e),
        },
        Fmt::Tags => {
            let want: Vec<_> = m
                .order
                .iter()
                .map(|t| {
                    let n = &m.nodes[*t];
                    (n.form.clone(), n.lemma.clone(), n.label.clone(), n.feats.clone())
                })
                .collect();
            match parse_conll(text) {
                Ok(v) if v.len() == 1 => {
                    let got: Vec<_> = v[0]
                        .iter()
                        .map(|t| (t.form.clone(), t.lemma.clone(), t.pos.clone(), t.feats.clone()))
                        .collect();
                    ensure!(got == want, "wrong-text", "tokens {:?} expected {:?}", got, want);
                    Ok(())
                }
                Ok(v) => bad(format!("{} sentences instead of one", v.len())),
                Err(e) => bad(e),
            }
        }
        _ => {
            ensure!(
                text.ends_with('\n') && !text[..text.len() - 1].contains('\n'),
                "wrong-text",
                "not one line: {:?}",
                text
            );
            match parse_bracket(text, fmt) {
                Ok(t) => check(t),
                Err(e) => bad(e),
            }
        }
    }
}

// ---- W01 -------------------------------------------------------------------

/// Put something into a tree that (some) formats have no way to write.
fn spoil(ctx: &Ctx, fmt: Fmt, m: &mut MTree) {
    let bad = |ctx: &Ctx, s: &str, empty: bool| -> String {
        if empty && ctx.chance(1, 5) {
            return String::new();
        }
        let cs: Vec<char> = s.chars().collect();
        let at = ctx.below(cs.len() + 1);
        let c = if fmt == Fmt::Tags {
            *ctx.pick(&['\t', '\n', ' ', '\u{a0}', '('])
        } else {
            *ctx.pick(&[' ', '\t', '\n', '\r', '(', ')', '\u{a0}', '\u{2003}', '\u{85}'])
        };
        cs[..at].iter().chain(Some(&c)).chain(&cs[at..]).collect()
    };
    let w = *ctx.pick(&m.order);
    let live = m.live();
    let nts = m.nts();
    let r = m.root;
    let e = fmt != Fmt::Tags;
    match ctx.below(10) {
        0 if fmt == Fmt::Negra && ctx.chance(1, 4) => {
            m.nodes[w].form = ctx.pick(&["#", "#500", "#tag", "#BOS", "#EOS", "a#500", "##"]).to_string();
        }
        0 => m.nodes[w].form = bad(ctx, &m.nodes[w].form, e),
        1 => m.nodes[w].label = bad(ctx, &m.nodes[w].label, e),
        2 => m.nodes[w].lemma = Some(bad(ctx, "l", e)),
        3 => {
            let v = bad(ctx, "m", e);
            m.nodes[w].feats.insert("morph".into(), Some(v));
        }
        4 => {
            let x = *ctx.pick(&live);
            if x != r {
                m.nodes[x].edge = Some(bad(ctx, "E", e));
            }
        }
        5 | 6 if !nts.is_empty() => {
            let x = *ctx.pick(&nts);
            if ctx.chance(2, 3) {
                m.nodes[x].label = bad(ctx, &m.nodes[x].label, e);
            } else {
                m.nodes[x].feats.insert(crate::model::ANNOT.into(), Some(bad(ctx, "A", false)));
            }
        }
        7 if fmt == Fmt::Negra && !nts.is_empty() => {
            let x = *ctx.pick(&nts);
            let y = *ctx.pick(&live);
            if x != y {
                let l = match ctx.below(4) {
                    0 => None,
                    1 => Some("%x".to_string()),
                    2 => Some("x%".to_string()),
                    _ => Some(bad(ctx, "s", true)),
                };
                m.add_sec(x, y, l);
            }
        }
        8 if fmt == Fmt::Negra && !nts.is_empty() => {
            let x = *ctx.pick(&nts);
            if x != r {
                let l = if ctx.chance(1, 2) { Some("s".to_string()) } else { None };
                m.add_sec(x, r, l);
            }
        }
        9 if fmt == Fmt::Negra => {
            let (k, v) = *ctx.pick(&[
                ("sentence_id", ""),
                ("sentence_id", "x"),
                ("sentence_id", "1 2"),
                ("sentence_id", "-1"),
                ("sentence_id", "+1"),
                ("sentence_id", "007"),
                ("sentence_id", "18446744073709551616"),
                ("sentence_id", "3\n"),
                ("metadata", "a\nb"),
                ("metadata", "a\n#EOS 1"),
            ]);
            m.nodes[r].feats.insert(k.into(), Some(v.into()));
        }
        9 if fmt == Fmt::Tags => {
            let (k, v) = (bad(ctx, "k", false), bad(ctx, "v", false));
            m.nodes[w].feats.insert(k.replace('(', ""), Some(v.replace('(', "")));
        }
        _ => {}
    }
    ctx.probe("spoilt");
}

pub fn w01(ctx: &Ctx) -> Res {
    let fmt = pick_fmt(ctx);
    let mut g = Gen::swarm(ctx, fmt);
    g.discont = ctx.chance(1, 3);
    g.root_term = ctx.chance(1, 2);
    g.parens = fmt.bracket();
    g.sec = fmt == Fmt::Negra && ctx.chance(1, 3);
    let n = n_trees(ctx, &mut g);
    let mut trees = Vec::new();
    for _ in 0..n {
        let mut m = g.tree(ctx);
        if fmt == Fmt::Negra {
            negra_root(ctx, &mut m);
        }
        if ctx.chance(1, 6) {
            spoil(ctx, fmt, &mut m);
        }
        let mut p = build(ctx, &m, BuildCfg { shuffle: true, scramble: false })?;
        let mut can = expressible(&m, fmt)
            && match fmt {
                Fmt::Negra => !m.nodes[m.root].term,
                Fmt::Tags => true,
                _ => m.projective(),
            };
        if g.sec && can && ctx.chance(1, 8) {
            // words have no number a secondary edge could refer to
            let w = *ctx.pick(&m.order);
            let free: Vec<usize> = m.live().into_iter().filter(|x| *x != w && *x != m.root && m.sec.iter().all(|s| s.child != *x)).collect();
            if !free.is_empty() {
                let (hw, hx) = (p.h[w].unwrap(), p.h[*ctx.pick(&free)].unwrap());
                let t = &mut p.tree;
                sut_ok("add_secondary_edge", || t.add_secondary_edge(hw, hx, Some("x")))?;
                ctx.probe("secondary_edge_from_word");
                can = false;
            }
        }
        trees.push((p.tree, m, can));
    }
    // what a faultless sink receives
    let mut seg: Vec<Option<Vec<u8>>> = Vec::new();
    {
        let (w, st) = sink(ctx, &WritePlan::plain(), None);
        let mut w = AnyWriter::new(fmt, w);
        for (t, m, can) in &trees {
            let can = *can;
            let before = st.lock().unwrap().bytes.len();
            let r = sut_ok("write_tree", || w.write(t).map_err(|e| e.to_string()))?;
            let text = st.lock().unwrap().bytes[before..].to_vec();
            match r {
                Ok(()) => {
                    ensure!(can, "not-refused", "a tree {} cannot express was accepted: {:?}", fmt.name(), String::from_utf8_lossy(&text));
                    let s = match std::str::from_utf8(&text) {
                        Ok(s) => s,
                        Err(_) => return fail("wrong-text", "the text is not UTF-8"),
                    };
                    judge(fmt, s, m)?;
                    seg.push(Some(text));
                }
                Err(e) => {
                    ensure!(!can, "refused", "writing {} failed without a fault: {}", fmt.name(), e);
                    ensure!(text.is_empty(), "refused-partly", "{} bytes were written of a refused tree", text.len());
                    ctx.probe("tree_refused");
                    seg.push(None);
                }
            }
        }
    }
    let total: usize = seg.iter().flatten().map(|s| s.len()).sum();
    let all: Vec<u8> = seg.iter().flatten().flatten().cloned().collect();
    ctx.hash_bytes(&all);
    let rounds = ctx.range(1, 4);
    for _ in 0..rounds {
        let mut plan = WritePlan::draw(ctx);
        let fault = if ctx.chance(4, 5) && total > 0 {
            let at = ctx.below(total);
            let kind = if ctx.chance(1, 4) { SinkFault::Zero } else { SinkFault::Error(*ctx.pick(&HARD)) };
            let times = if ctx.chance(1, 2) { u32::MAX } else { 1 };
            plan.faults.push((at, kind, times));
            Some(times)
        } else {
            None
        };
        ctx.note(|| format!("plan {:?}", plan));
        let (w, st) = sink(ctx, &plan, None);
        let mut w = AnyWriter::new(fmt, w);
        let mut done: Vec<u8> = Vec::new();
        let mut hit = false;
        for (i, (t, ..)) in trees.iter().enumerate() {
            let fired = st.lock().unwrap().fired;
            let r = sut_ok("write_tree", || w.write(t).map_err(|e| e.to_string()))?;
            let s = st.lock().unwrap();
            let failed = s.fired > fired;
            if let Some(x) = &seg[i] {
                done.extend_from_slice(x);
            }
            match (&seg[i], &r) {
                (None, Err(_)) => {
                    ensure!(s.bytes.len() == done.len() || hit, "refused-partly", "a refused tree was written in part");
                    continue;
                }
                (None, Ok(())) => return fail("not-refused", "a tree was refused and then accepted"),
                (Some(_), Ok(())) => {
                    ensure!(!failed, "silent-loss", "tree {}: the sink failed, write_tree reported success", i);
                    if !hit {
                        ensure!(
                            s.bytes == done,
                            "silent-loss",
                            "tree {}: success was reported, but the sink holds {} bytes instead of {} or other text: {:?}",
                            i,
                            s.bytes.len(),
                            done.len(),
                            show_doc(&s.bytes)
                        );
                    }
                }
                (Some(_), Err(e)) => {
                    ensure!(failed, "spurious-error", "tree {}: error without a fault: {}", i, e);
                    if !hit {
                        ensure!(
                            all.starts_with(&s.bytes) && s.bytes.len() < done.len(),
                            "not-prefix",
                            "after an error the sink does not hold a prefix of the output"
                        );
                    }
                    hit = true;
                    ctx.nontrivial();
                    if fault == Some(1) {
                        // the sink works again: later trees are unaffected, but
                        // their text follows the torn one
                        break;
                    }
                }
            }
        }
        if fault.is_some() {
            ensure!(hit, "silent-loss", "the sink failed, no write_tree reported it");
        }
    }
    Ok(())
}

// ---- storage ---------------------------------------------------------------

struct Rec {
    canon: Canon,
    /// Offset of the first byte / behind the last byte.
    start: usize,
    end: usize,
}

/// Append-only storage with a crash.
struct Store {
    bytes: Vec<u8>,
    durable: usize,
    recs: Vec<Rec>,
    /// Number of trees before `recs[acked..]` that have been made durable.
    acked: usize,
}

impl Store {
    fn new() -> Store {
        Store {
            bytes: Vec::new(),
            durable: 0,
            recs: Vec::new(),
            acked: 0,
        }
    }

    fn sync(&mut self, ctx: &Ctx) {
        self.durable = self.bytes.len();
        self.acked = self.recs.len();
        ctx.event("sync", self.durable as u64, self.acked as u64);
    }

    /// Crash: everything behind a point at or behind the durable end is lost
    /// or replaced with zeros. Returns the surviving length and whether zeros
    /// follow it.
    fn crash(&mut self, ctx: &Ctx) -> (usize, bool) {
        let n = self.bytes.len();
        let cut = match ctx.weighted(&[2, 2, 4, 3]) {
            0 => n,
            1 => self.durable,
            2 => self.durable + ctx.below(n - self.durable + 1),
            _ => {
                // close to the end of a tree
                let ends: Vec<usize> = self.recs.iter().map(|r| r.end).filter(|e| *e >= self.durable).collect();
                if ends.is_empty() {
                    n
                } else {
                    let e = *ctx.pick(&ends);
                    (e + ctx.below(3)).saturating_sub(ctx.below(4)).max(self.durable).min(n)
                }
            }
        };
        let lost = n - cut;
        ctx.event("crash", cut as u64, lost as u64);
        ctx.fault("crash");
        let zeros = lost > 0 && ctx.chance(1, 2);
        if zeros {
            ctx.fault("torn_tail_zeroed");
            let keep = ctx.range(1, lost);
            for b in &mut self.bytes[cut..cut + keep] {
                *b = 0;
            }
            self.bytes.truncate(cut + keep);
        } else {
            if lost > 0 {
                ctx.fault("tail_lost");
            }
            self.bytes.truncate(cut);
        }
        ctx.note(|| format!("after the crash ({} durable)\n{}", self.durable, show_doc(&self.bytes)));
        (cut, zeros)
    }
}

/// Read back after a crash at `cut`: every tree complete before it, then
/// complete trees or errors.
fn recover(ctx: &Ctx, st: &Store, layout: Layout, (cut, zeros): (usize, bool)) -> Res {
    let data = Arc::new(st.bytes.clone());
    let plan = ReadPlan::draw(ctx);
    let (src, _) = source(ctx, &data, &plan, None);
    let mut it = open(layout, src);
    let mut i = 0;
    let mut errs = 0;
    // with zeros in place of its line end the last line is damaged
    let must = st.recs.iter().filter(|r| r.end + zeros as usize <= cut).count();
    ensure!(must >= st.acked, "harness", "acknowledged trees behind the crash");
    loop {
        match next_item(&mut it)? {
            Some(Ok(t)) => {
                let o = observe_wf(&t, "recovered tree")?;
                ensure!(errs == 0 || i >= must, "harness", "bookkeeping");
                let Some(r) = st.recs.get(i) else {
                    return fail("invented", format!("recovery yields a tree that was never written:\n{}", o.canon.show()));
                };
                if let Some(d) = diff(&r.canon, &[], &o.canon) {
                    return fail(
                        if i < must { "changed" } else { "half-written" },
                        format!(
                            "{}: tree {} ({} complete, {} acknowledged): {}\nwritten:\n{}recovered:\n{}",
                            layout.name(),
                            i,
                            must,
                            st.acked,
                            d,
                            r.canon.show(),
                            o.canon.show()
                        ),
                    );
                }
                i += 1;
            }
            Some(Err(e)) => {
                ensure!(
                    i >= must,
                    "lost",
                    "{}: only {} of {} complete trees ({} acknowledged) recovered: {}",
                    layout.name(),
                    i,
                    must,
                    st.acked,
                    e
                );
                ensure!(
                    st.bytes.len() != st.recs.get(must.wrapping_sub(1)).map(|r| r.end).unwrap_or(0),
                    "spurious-error",
                    "{}: error in an intact file: {}",
                    layout.name(),
                    e
                );
                errs += 1;
                ensure!(errs < 200 + st.bytes.len(), "no-end", "recovery does not end");
            }
            None => break,
        }
    }
    ensure!(
        i >= must,
        "lost",
        "{}: only {} of {} complete trees ({} acknowledged) recovered, no error",
        layout.name(),
        i,
        must,
        st.acked
    );
    Ok(())
}

/// Set running numbers aside: any number is fine for an unnumbered tree.
fn negra_sid(text: &[u8]) -> Option<String> {
    let s = std::str::from_utf8(text).ok()?;
    let id = s.strip_prefix("#BOS ")?.split_whitespace().next()?;
    id.parse::<u64>().ok()?;
    Some(id.to_string())
}

fn stored(ctx: &Ctx, fmt: Fmt) -> Res {
    let mut g = Gen::swarm(ctx, fmt);
    if fmt == Fmt::Negra {
        g.discont = ctx.chance(2, 3);
        g.sec = ctx.chance(1, 2);
    } else {
        g.root_term = true;
        g.parens = ctx.chance(1, 3);
    }
    // features of the trees the format does not carry
    let other = ctx.chance(1, 4);
    g.feats = other;
    let epochs = ctx.range(1, 3);
    let mut st = Store::new();
    for epoch in 0..epochs {
        let base = st.bytes.len();
        let plan = WritePlan::draw(ctx);
        let (w, sk) = sink(ctx, &plan, None);
        let mut w: AnyWriter<SimWriter> = AnyWriter::new(fmt, w);
        let n = n_trees(ctx, &mut g);
        // sentences so far, without an id and with one, and the last number given
        let (mut plain, mut named, mut last) = (0u64, 0u64, None);
        let all_plain = ctx.chance(1, 3);
        for _ in 0..n {
            let mut m = g.tree(ctx);
            if fmt == Fmt::Negra {
                negra_root(ctx, &mut m);
                if all_plain {
                    m.nodes[m.root].feats.remove("sentence_id");
                }
            }
            let p = build(ctx, &m, BuildCfg { shuffle: true, scramble: other })?;
            let start = st.bytes.len();
            let r = sut_ok("write_tree", || w.write(&p.tree).map_err(|e| e.to_string()))?;
            if let Err(e) = r {
                return fail("refused", format!("write_tree failed without a fault: {}", e));
            }
            let bytes = sk.lock().unwrap().bytes[start - base..].to_vec();
            st.bytes.extend_from_slice(&bytes);
            let sid = if fmt == Fmt::Negra && !m.nodes[m.root].feats.contains_key("sentence_id") {
                let s = negra_sid(&bytes);
                ensure!(s.is_some(), "wrong-text", "no sentence id in {:?}", show_doc(&bytes));
                let id = s.as_deref().and_then(|s| s.parse::<u64>().ok());
                ensure!(
                    id.is_some() && (last.is_none() || id > last) && (named > 0 || id == Some(plain)),
                    "wrong-text",
                    "unnumbered sentence {} (after {} numbered ones) got the id {:?} after {:?}",
                    plain,
                    named,
                    s,
                    last
                );
                last = id;
                plain += 1;
                s
            } else {
                named += 1;
                None
            };
            let end = start + trimmed(&st.bytes[start..]).len();
            st.recs.push(Rec {
                canon: as_read(&m, fmt, sid.as_deref()),
                start,
                end,
            });
            ctx.event("acked", st.bytes.len() as u64, st.recs.len() as u64);
            if ctx.chance(1, 2) {
                st.sync(ctx);
            }
        }
        ctx.hash_bytes(&st.bytes);
        if epoch + 1 == epochs && ctx.chance(1, 4) {
            st.sync(ctx);
        }
        let crash = st.crash(ctx);
        ctx.nontrivial();
        let layouts = match fmt {
            Fmt::Negra => vec![Layout::Negra],
            f => vec![Layout::Single(f), Layout::Multi(f)],
        };
        for l in &layouts {
            recover(ctx, &st, *l, crash)?;
        }
        // repair: drop everything behind the last complete tree
        let keep = st.recs.iter().filter(|r| r.end <= crash.0).count();
        st.recs.truncate(keep);
        st.bytes.truncate(st.recs.last().map(|r| r.end).unwrap_or(0));
        if !st.bytes.is_empty() && st.bytes.last() != Some(&b'\n') {
            st.bytes.push(b'\n');
        }
        ctx.event("restart", st.bytes.len() as u64, keep as u64);
        st.sync(ctx);
    }
    // read and write again
    let layout = match fmt {
        Fmt::Negra => Layout::Negra,
        f => Layout::Single(f),
    };
    let data = Arc::new(st.bytes.clone());
    let (src, _) = source(ctx, &data, &ReadPlan::plain(), None);
    let mut it = open(layout, src);
    let (w, sk) = sink(ctx, &WritePlan::plain(), None);
    let mut w = AnyWriter::new(fmt, w);
    for (i, r) in st.recs.iter().enumerate() {
        let t = match next_item(&mut it)? {
            Some(Ok(t)) => t,
            Some(Err(e)) => return fail("lost", format!("after the repair tree {} is an error: {}", i, e)),
            None => return fail("lost", format!("after the repair tree {} is missing", i)),
        };
        let o = observe_wf(&t, "tree read after the repair")?;
        if let Some(d) = diff(&r.canon, &[], &o.canon) {
            return fail("changed", format!("after the repair tree {}: {}", i, d));
        }
        let at = sk.lock().unwrap().bytes.len();
        let res = sut_ok("write_tree", || w.write(&t).map_err(|e| e.to_string()))?;
        if let Err(e) = res {
            return fail("refused", format!("writing a tree again failed: {}", e));
        }
        let again = sk.lock().unwrap().bytes[at..].to_vec();
        let again = trimmed(&again);
        let first = trimmed(&st.bytes[r.start..r.end]);
        if fmt != Fmt::Negra {
            ensure!(
                again == first,
                "second-write",
                "second write differs: {:?} and {:?}",
                String::from_utf8_lossy(first),
                String::from_utf8_lossy(again)
            );
        } else if again == first {
            ctx.probe("negra_second_write_identical");
        }
    }
    ensure!(next_item(&mut it)?.is_none(), "invented", "more trees after the repair than written");
    Ok(())
}

fn trimmed(b: &[u8]) -> &[u8] {
    let mut e = b.len();
    while e > 0 && (b[e - 1] == b'\n') {
        e -= 1;
    }
    &b[..e]
}

pub fn w02(ctx: &Ctx) -> Res {
    stored(ctx, Fmt::Negra)
}

pub fn w03(ctx: &Ctx) -> Res {
    let fmt = *ctx.pick(&[Fmt::Simple, Fmt::Ptb, Fmt::TueBa]);
    stored(ctx, fmt)
}

// ---- W04 -------------------------------------------------------------------

struct TagRec {
    canon: Canon,
    model: MTree,
    abs: bool,
    rel: bool,
    /// Offset behind the last byte of the sentence's text.
    end: usize,
}

fn to_sentence(ctx: &Ctx, t: &Tree) -> Res<Option<Sentence>> {
    match ctx.below(4) {
        0 => Ok(None),
        1 => sut_ok("to_conllx", || Some(t.to_conllx())),
        2 => sut_ok("Sentence::from", || Some(Sentence::from(t))),
        _ => {
            let t = t.clone();
            sut_ok("Sentence::from", || Some(Sentence::from(t)))
        }
    }
}

fn decode_sentence(s: &Sentence, abs: bool) -> Res<Result<Tree, String>> {
    sut_ok("decoding", || {
        if abs {
            Tree::try_from_conllx_with_absolute_encoding(s)
        } else {
            Tree::try_from_conllx_with_relative_encoding(s)
        }
        .map_err(|e| e.to_string())
    })
}

/// The route without any file.
fn in_memory(ctx: &Ctx, t: &Tree, exp: &Canon) -> Res {
    let absolute = match sut_ok("encode_absolute", || t.encode_absolute().map_err(|e| e.to_string()))? {
        Ok(e) => e,
        Err(e) => return fail("refused", format!("encode_absolute: {}", e)),
    };
    let relative = match sut_ok("encode_relative", || t.encode_relative().map_err(|e| e.to_string()))? {
        Ok(e) => e,
        Err(e) => return fail("refused", format!("encode_relative: {}", e)),
    };
    // both encodings describe the same tree: each is the other's conversion
    let a = absolute.clone();
    let converted = sut_ok("converting to relative", || RelativeEncoding::from(a))?;
    ensure!(
        converted == relative,
        "not-restored",
        "encoded relative tags {:?}, converted absolute ones {:?}",
        relative,
        converted
    );
    let enc = if ctx.chance(1, 2) {
        absolute
    } else {
        let conv = sut_ok("try_from_relative", || AbsoluteEncoding::try_from_relative(relative))?;
        match sut_ok("into_result", || conv.clone().into_result().map_err(|_| ()))? {
            Ok(e) => ensure!(
                e == absolute,
                "not-restored",
                "encoded absolute tags {:?}, converted relative ones {:?}",
                absolute,
                e
            ),
            Err(_) => return fail("not-restored", "relative tags of a tree do not convert"),
        }
        sut_ok("unwrap_or_fix", || conv.unwrap_or_fix())?
    };
    let mut ts: Vec<_> = t.terminals().collect();
    ts.sort_by_key(|x| t[*x].span().bounds().0);
    let terms: Vec<Terminal> = ts.iter().map(|x| t[*x].terminal().unwrap().clone()).collect();
    let mut d = sut_ok("decode", || Tree::decode(enc, terms))?;
    let r = sut_ok("restore_unary_chains", || d.restore_unary_chains("_").map_err(|e| e.to_string()))?;
    if let Err(e) = r {
        return fail("not-restored", format!("restore_unary_chains: {}", e));
    }
    let o = observe_wf(&d, "decoded tree")?;
    let got = o.canon.strip(|n| {
        n.feats.clear();
        n.lemma = None;
    });
    if let Some(x) = diff(exp, &[], &got) {
        return fail("not-restored", format!("decoded encoding: {}\nexpected:\n{}got:\n{}", x, exp.show(), got.show()));
    }
    Ok(())
}

pub fn w04(ctx: &Ctx) -> Res {
    let mut g = Gen::swarm(ctx, Fmt::Tags);
    g.root_term = true;
    g.feats = ctx.chance(1, 2);
    g.annot = false;
    g.unary = ctx.chance(5, 6);
    let epochs = ctx.range(1, 3);
    let mut bytes: Vec<u8> = Vec::new();
    let mut durable = 0;
    let mut acked = 0;
    let mut recs: Vec<TagRec> = Vec::new();
    for _ in 0..epochs {
        let base = bytes.len();
        let plan = WritePlan::draw(ctx);
        let (w, sk) = sink(ctx, &plan, None);
        let mut w = Writer::new(w);
        let n = n_trees(ctx, &mut g);
        for _ in 0..n {
            let mut m = g.tree(ctx);
            for x in 0..m.nodes.len() {
                if !m.nodes[x].term {
                    m.nodes[x].feats.clear();
                }
            }
            let mut p = build(ctx, &m, BuildCfg { shuffle: true, scramble: false })?;
            let r = sut_ok("collapse_unary_chains", || p.tree.collapse_unary_chains("_").map_err(|e| e.to_string()))?;
            if let Err(e) = r {
                return fail("refused", format!("collapse_unary_chains: {}", e));
            }
            let (abs, rel) = *ctx.pick(&[(true, false), (false, true), (true, true)]);
            let canon = as_read(&m, Fmt::Tags, None);
            if ctx.chance(1, 4) {
                in_memory(ctx, &p.tree, &canon)?;
            }
            let first_abs = ctx.chance(1, 2);
            for pass in 0..2 {
                let is_abs = (pass == 0) == first_abs;
                if is_abs && abs || !is_abs && rel {
                    let r = sut_ok("annotate", || {
                        if is_abs {
                            p.tree.annotate_absolute()
                        } else {
                            p.tree.annotate_relative()
                        }
                        .map_err(|e| e.to_string())
                    })?;
                    if let Err(e) = r {
                        return fail("refused", format!("annotating a continuous tree: {}", e));
                    }
                }
            }
            let sent = to_sentence(ctx, &p.tree)?;
            let r = sut_ok("writing", || match &sent {
                None => w.write_tree(&p.tree).map_err(|e| e.to_string()),
                Some(s) => w.write_sentence(s).map_err(|e| e.to_string()),
            })?;
            if let Err(e) = r {
                return fail("refused", format!("writing failed without a fault: {}", e));
            }
            bytes.truncate(base);
            bytes.extend_from_slice(&sk.lock().unwrap().bytes);
            recs.push(TagRec {
                canon,
                model: m,
                abs,
                rel,
                end: bytes.len(),
            });
            if ctx.chance(1, 2) {
                durable = bytes.len();
                acked = recs.len();
                ctx.event("sync", durable as u64, acked as u64);
            }
        }
        ctx.hash_bytes(&bytes);
        let cut = if ctx.chance(1, 3) {
            bytes.len()
        } else {
            durable + ctx.below(bytes.len() - durable + 1)
        };
        if cut < bytes.len() {
            ctx.fault("tail_lost");
        }
        ctx.fault("crash");
        ctx.event("crash", cut as u64, bytes.len() as u64);
        ctx.nontrivial();
        bytes.truncate(cut);
        ctx.note(|| format!("after the crash ({} acknowledged)\n{}", acked, show_doc(&bytes)));
        let must = recs.iter().filter(|r| r.end <= cut).count();
        ensure!(must >= acked, "harness", "bookkeeping");
        // text of the complete sentences
        let upto = recs[..must].last().map(|r| r.end).unwrap_or(0);
        let text = match std::str::from_utf8(&bytes[..upto]) {
            Ok(t) => t,
            Err(_) => return fail("tokens-changed", "the text is not UTF-8"),
        };
        let toks = match parse_conll(text) {
            Ok(t) => t,
            Err(e) => return fail("tokens-changed", format!("{}\n{}", e, show_doc(&bytes))),
        };
        ensure!(toks.len() == must, "tokens-changed", "{} sentences, {} written", toks.len(), must);
        for (r, s) in recs.iter().zip(&toks) {
            ensure!(s.len() == r.model.n(), "tokens-changed", "{} tokens, {} words", s.len(), r.model.n());
            for (t, k) in r.model.order.iter().zip(s) {
                let n = &r.model.nodes[*t];
                let mut f = k.feats.clone();
                let a = f.remove("abs_ancestor");
                let b = f.remove("rel_ancestor");
                f.remove("unary_chain");
                ensure!(
                    k.form == n.form && k.lemma == n.lemma && k.pos == n.label && f == n.feats,
                    "tokens-changed",
                    "token {:?} stored for word {:?} {:?} {:?} {}",
                    k,
                    n.form,
                    n.lemma,
                    n.label,
                    feats_string(&n.feats)
                );
                ensure!(
                    a.is_some() == r.abs && b.is_some() == r.rel,
                    "tokens-changed",
                    "tags of {:?} present: {:?} {:?}",
                    n.form,
                    a,
                    b
                );
            }
        }
        // restore
        let data = Arc::new(bytes.clone());
        let plan = ReadPlan::draw(ctx);
        let (src, _) = source(ctx, &data, &plan, None);
        let mut it = Reader::new(src).sentences();
        for (i, r) in recs[..must].iter().enumerate() {
            let s = match sut_ok("the reader", || it.next())? {
                Some(Ok(s)) => s,
                Some(Err(e)) => return fail("lost", format!("sentence {} of {}: {}", i, must, e)),
                None => return fail("lost", format!("only {} of {} sentences", i, must)),
            };
            // a torn sentence that follows without separator cannot exist
            for is_abs in [true, false] {
                if is_abs && !r.abs || !is_abs && !r.rel {
                    continue;
                }
                match decode_sentence(&s, is_abs)? {
                    Ok(t) => {
                        let o = observe_wf(&t, "restored tree")?;
                        if let Some(d) = diff(&r.canon, &[], &o.canon) {
                            return fail(
                                "not-restored",
                                format!(
                                    "sentence {} from {} tags: {}\nwritten:\n{}restored:\n{}\n{}",
                                    i,
                                    if is_abs { "absolute" } else { "relative" },
                                    d,
                                    r.canon.show(),
                                    o.canon.show(),
                                    s
                                ),
                            );
                        }
                    }
                    Err(e) => return fail("not-restored", format!("sentence {}: {}\n{}", i, e, s)),
                }
            }
        }
        // repair and restart
        recs.truncate(must);
        bytes.truncate(upto.max(durable.min(upto)));
        if !bytes.is_empty() {
            bytes.push(b'\n');
        }
        durable = bytes.len();
        acked = recs.len();
        ctx.event("restart", durable as u64, acked as u64);
    }
    Ok(())
}

// ---- W05 -------------------------------------------------------------------

fn bad_tag(ctx: &Ctx, good: &[String]) -> Option<String> {
    let num = |ctx: &Ctx| -> String {
        match ctx.weighted(&[6, 3, 2, 2, 1]) {
            0 => ctx.below(6).to_string(),
            1 => format!("-{}", ctx.below(5)),
            2 => ctx.below(60).to_string(),
            3 => ctx.pick(&["", "x", "1.5", "+", "--1", "00", "01", "999", "3000"]).to_string(),
            _ => ctx
                .pick(&["9223372036854775807", "-9223372036854775808", "18446744073709551615", "99999999999999999999", "1000000000", "-1000000000"])
                .to_string(),
        }
    };
    let label = |ctx: &Ctx| -> String {
        ctx.pick(&["S", "NP", "X", "A_B", "_", "A_", "_A", "", "DUMMY", "NONE", "A_B_C", "ä"]).to_string()
    };
    let mut t = match ctx.weighted(&[5, 4, 3, 3, 1]) {
        0 => format!("{}+{}", label(ctx), num(ctx)),
        1 => ctx.pick(good).clone(),
        2 => "NONE".to_string(),
        3 => label(ctx),
        _ => return None,
    };
    if ctx.chance(1, 5) {
        t = format!("{}~{}", t, ctx.pick(&["", "A", "A_B", "_", "~", "NX~Y", "DUMMY"]));
    }
    Some(t)
}

/// The sentence with absolute tags that stand for its relative ones, with the documented
/// replacement of sums below one by 2. None: a tag is missing or not a tag, or a sum is out of
/// the range of textual tags.
fn absolute_of(s: &Sentence) -> Option<Sentence> {
    let mut prev = 0i64;
    let mut out = Sentence::new();
    for t in s.iter().filter_map(|n| n.token()) {
        let tag = t.features()?.as_map().get("rel_ancestor")?.clone()?;
        let (tag, leaf) = match tag.split_once('~') {
            Some((t, l)) => (t, Some(l.split('~').next().unwrap())),
            None => (&tag[..], None),
        };
        let mut new = if tag == "NONE" {
            tag.to_string()
        } else {
            let mut parts = tag.split('+');
            let label = parts.next().filter(|l| !l.is_empty())?;
            prev = match parts.next() {
                None => 1,
                Some(n) => {
                    let n: i64 = n.parse().ok()?;
                    if !(-4096..=4096).contains(&n) {
                        return None;
                    }
                    if prev + n < 1 {
                        2
                    } else {
                        prev + n
                    }
                }
            };
            if prev > 4096 {
                return None;
            }
            format!("{}+{}", label, prev)
        };
        if let Some(l) = leaf {
            new = format!("{}~{}", new, l);
        }
        let mut k = Token::new(t.form());
        k.set_pos(t.pos());
        k.set_features(Some(Features::from_string(format!("abs_ancestor:{}", new))));
        out.push(k);
    }
    Some(out)
}

pub fn w05(ctx: &Ctx) -> Res {
    let mut g = Gen::swarm(ctx, Fmt::Tags);
    g.root_term = true;
    g.annot = false;
    let abs = ctx.chance(1, 2);
    let key = if abs { "abs_ancestor" } else { "rel_ancestor" };
    let n = ctx.range(1, 3);
    let mut text = String::new();
    for _ in 0..n {
        let m = g.tree(ctx);
        let mut lines: Vec<Vec<String>> = emit_tags(&m, abs)
            .into_iter()
            .map(|l| l.split('\t').map(str::to_string).collect())
            .collect();
        let good: Vec<String> = lines
            .iter()
            .map(|l| {
                let at = l[5].find(key).expect("tag");
                l[5][at + key.len() + 1..].split('|').next().unwrap().to_string()
            })
            .collect();
        let set = |l: &mut Vec<String>, v: Option<&str>| {
            l[5] = match v {
                Some(v) => format!("{}:{}", key, v),
                None => "_".into(),
            }
        };
        let wild = ctx.chance(1, 4);
        let k = if wild { lines.len() } else { ctx.range(1, 4) };
        for j in 0..k {
            if lines.is_empty() {
                break;
            }
            let i = if wild { j.min(lines.len() - 1) } else { ctx.below(lines.len()) };
            let kind = if wild { 0 } else { ctx.weighted(&[6, 3, 3, 2, 2, 1]) };
            ctx.event("damage", kind as u64, i as u64);
            match kind {
                0 => {
                    ctx.fault("tag_replaced");
                    let t = bad_tag(ctx, &good);
                    set(&mut lines[i], t.as_deref());
                }
                1 => {
                    ctx.fault("tags_swapped");
                    let j = ctx.below(lines.len());
                    let a = lines[i][5].clone();
                    lines[i][5] = lines[j][5].clone();
                    lines[j][5] = a;
                }
                2 => {
                    ctx.fault("tag_duplicated");
                    let j = ctx.below(lines.len());
                    lines[i][5] = lines[j][5].clone();
                }
                3 => {
                    ctx.fault("line_lost");
                    lines.remove(i);
                }
                4 => {
                    ctx.fault("line_duplicated");
                    let l = lines[i].clone();
                    lines.insert(i, l);
                }
                _ => {
                    ctx.fault("tag_lost");
                    match ctx.below(3) {
                        0 => set(&mut lines[i], None),
                        1 => lines[i][5] = key.to_string(),
                        _ => lines[i][5] = format!("{}:", key),
                    }
                }
            }
        }
        for l in lines {
            text.push_str(&l.join("\t"));
            text.push('\n');
        }
        text.push('\n');
    }
    ctx.note(|| text.clone());
    ctx.hash_bytes(text.as_bytes());
    let data = Arc::new(text.into_bytes());
    let (src, _) = source(ctx, &data, &ReadPlan { chunk: Chunk::Whole, ..ReadPlan::plain() }, None);
    for s in Reader::new(src).sentences() {
        let Ok(s) = s else { break };
        let words: Vec<(String, String)> = s
            .iter()
            .filter_map(|n| n.token())
            .map(|t| (t.form().to_string(), t.pos().unwrap_or("_").to_string()))
            .collect();
        let mut t = match decode_sentence(&s, abs)? {
            Ok(t) => t,
            Err(e) => {
                ctx.probe("damaged_tags_refused");
                if !abs {
                    if let Some(a) = absolute_of(&s) {
                        let other = decode_sentence(&a, true)?;
                        ensure!(
                            other.is_err(),
                            "relative",
                            "relative tags refused ({}), not the absolute ones they stand for\n{}\n{}",
                            e,
                            s,
                            a
                        );
                    }
                }
                continue;
            }
        };
        ctx.probe("damaged_tags_decoded");
        if !abs {
            if let Some(a) = absolute_of(&s) {
                ctx.probe("relative_against_absolute");
                let other = match decode_sentence(&a, true)? {
                    Ok(t) => t,
                    Err(e) => return fail("relative", format!("the absolute tags were refused: {}\n{}\n{}", e, s, a)),
                };
                let x = observe_wf(&t, "decoded tree")?;
                let y = observe_wf(&other, "tree decoded from absolute tags")?;
                if let Some(d) = diff(&y.canon, &[], &x.canon) {
                    return fail(
                        "relative",
                        format!(
                            "relative tags and the absolute ones they stand for: {}\nabsolute:\n{}relative:\n{}\n{}\n{}",
                            d,
                            y.canon.show(),
                            x.canon.show(),
                            s,
                            a
                        ),
                    );
                }
            }
        }
        let check = |t: &Tree, what: &str| -> Res {
            let o = match observe_wf(t, what) {
                Ok(o) => o,
                Err(mut f) => {
                    f.msg = format!("{}\n{}", f.msg, s);
                    return Err(f);
                }
            };
            ensure!(t.is_projective(), "discontinuous", "{}: discontinuous\n{}", what, s);
            let got = o.canon.words();
            ensure!(got == words, "words", "{}: words {:?} of sentence {:?}", what, got, words);
            Ok(())
        };
        check(&t, "decoded tree")?;
        let mut p = Pair::adopt(t, "decoded tree")?;
        let t = &mut p.tree;
        let r = sut_ok("remove_dummy_nodes", || t.remove_dummy_nodes().map_err(|e| e.to_string()))?;
        ensure!(r.is_ok(), "refused", "remove_dummy_nodes: {:?}\n{}", r, s);
        modelops::remove_dummies(&mut p.m);
        p.check("after remove_dummy_nodes", "placeholders")?;
        check(&p.tree, "tree without placeholders")?;
    }
    let _ = draw_chunk;
    Ok(())
}
