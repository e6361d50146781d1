//! T01-T06: histories of operations on trees, by several clients taking turns.

use std::cell::{Cell, RefCell};
use std::sync::Arc;

use lumberjack::io::{Decode, Encode, PTBFormat};
use lumberjack::util::Climber;
use lumberjack::{AnnotatePOS, Edge, Features, Node, NonTerminal, Projectivize, Terminal, Tree, TreeOps, UnaryChains};
use petgraph::prelude::{EdgeIndex, NodeIndex};

use crate::ctx::{fail, seed_hash_keys, sut, sut_ok, Ctx, Injected, Panicked, Res};
use crate::ensure;
use crate::gen::{Fmt, Gen, Kind};
use crate::io::{source, ReadPlan};
use crate::model::{Canon, MTree};
use crate::modelops;
use crate::observe::{build, in_edge, observe, observe_wf, BuildCfg, Pair};
use crate::props_stream::{next_item, open};
use crate::tape::{mix, Tape};
use crate::text::{emit_negra, Layout, NegraStyle};

// ---- getting trees ---------------------------------------------------------

fn free_gen(ctx: &Ctx) -> Gen {
    let mut g = Gen::swarm(ctx, Fmt::Free);
    g.root_term = ctx.chance(1, 3);
    g.discont = ctx.chance(2, 3);
    g.feats = ctx.chance(1, 2);
    g.sec = ctx.chance(1, 3);
    g.long = false;
    if g.max_terms > 24 {
        // rarely more words than a machine word has bits
        g.max_terms = if ctx.chance(1, 10) { g.max_terms.min(140) } else { 24 };
    }
    g
}

/// Read a tree from NEGRA text.
fn read_negra(ctx: &Ctx, m: &MTree) -> Option<Tree> {
    let mut m = m.clone();
    if m.nodes[m.root].term {
        return None;
    }
    // strings the format can carry
    for (i, n) in m.nodes.iter_mut().enumerate() {
        n.label = if n.term { "P".into() } else { format!("L{}", i % 5) };
        if n.term {
            n.form = format!("w{}", i);
        }
        n.feats.clear();
        n.lemma = None;
        if n.edge.is_some() {
            n.edge = Some(format!("e{}", i % 3));
        }
    }
    m.sec.clear();
    let style = NegraStyle { tabs: true, pad: false, comments: false, ids: 0 };
    let lines = emit_negra(ctx, &m, "1", None, &style);
    let data = Arc::new((lines.join("\n") + "\n").into_bytes());
    let (src, _) = source(ctx, &data, &ReadPlan::plain(), None);
    let mut it = open(Layout::Negra, src);
    match next_item(&mut it) {
        Ok(Some(Ok(t))) => Some(t),
        _ => None,
    }
}

/// A tree and its model; built or read. `None` if the tree cannot be had
/// (which is the business of other properties).
fn any_pair(ctx: &Ctx, m: &MTree) -> Option<Pair> {
    if ctx.chance(1, 4) {
        if let Some(t) = read_negra(ctx, m) {
            return Pair::adopt(t, "read tree").ok();
        }
    }
    let cfg = BuildCfg {
        shuffle: ctx.chance(2, 3),
        scramble: ctx.chance(1, 3),
    };
    match build(ctx, m, cfg) {
        Ok(p) => Some(p),
        Err(_) => {
            let t = read_negra(ctx, m)?;
            Pair::adopt(t, "read tree").ok()
        }
    }
}

// ---- single operations against the model -----------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Ok,
    Err,
    Panic,
    /// Not specified; the model has to be left alone by the caller.
    Any,
}

fn judge<T>(want: Want, got: Result<Result<T, String>, Panicked>, what: &str) -> Res<Option<T>> {
    match (want, got) {
        (Want::Ok, Ok(Ok(v))) | (Want::Any, Ok(Ok(v))) => Ok(Some(v)),
        (Want::Ok, Ok(Err(e))) => fail("refused", format!("{} was refused: {}", what, e)),
        (Want::Any, _) => Ok(None),
        (Want::Err, Ok(Err(_))) | (Want::Panic, Ok(Err(_))) | (Want::Panic, Err(_)) => Ok(None),
        (Want::Err, Ok(Ok(_))) | (Want::Panic, Ok(Ok(_))) => {
            fail("accepted", format!("{} was not refused", what))
        }
        (_, Err(p)) => fail("panic", format!("{} panicked: {}", what, p.msg)),
    }
}

fn es<T>(r: Result<T, failure::Error>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

/// Order of children and edges, and everything reachable by handle.
#[derive(PartialEq, Debug)]
struct Snap {
    root: NodeIndex,
    n: usize,
    proj: bool,
    kids: Vec<(NodeIndex, Vec<(NodeIndex, EdgeIndex)>, Vec<(NodeIndex, EdgeIndex)>)>,
    text: String,
}

fn snap(t: &Tree) -> Snap {
    let obs = observe(t);
    Snap {
        root: t.root(),
        n: t.n_terminals(),
        proj: t.is_projective(),
        kids: t
            .graph()
            .node_indices()
            .map(|n| (n, t.children(n).collect(), t.secondary_children(n).collect()))
            .collect(),
        text: match obs {
            Ok(o) => o.canon.show() + &format!("{:?}", o.canon),
            Err(e) => e,
        },
    }
}

/// A client: the handles it has got hold of at some time.
#[derive(Default)]
struct Client {
    nodes: Vec<NodeIndex>,
    edges: Vec<EdgeIndex>,
}

struct Hist<'a> {
    ctx: &'a Ctx,
    g: Gen,
    p: Pair,
    clients: Vec<Client>,
    /// Weight of operations that have to be refused (per 100).
    bad: u64,
    refused: u64,
    /// Compare child order and handles after refusals.
    strict: bool,
}

impl<'a> Hist<'a> {
    fn new(ctx: &'a Ctx, g: Gen, p: Pair, bad: u64, strict: bool) -> Hist<'a> {
        let k = ctx.range(1, 3);
        Hist {
            ctx,
            g,
            p,
            clients: (0..k).map(|_| Client::default()).collect(),
            bad,
            refused: 0,
            strict,
        }
    }

    fn h(&self, n: usize) -> NodeIndex {
        self.p.h[n].expect("handle")
    }

    fn pick(&self, f: impl Fn(&MTree, usize) -> bool) -> Option<usize> {
        let v: Vec<usize> = self.p.m.live().into_iter().filter(|n| f(&self.p.m, *n)).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.ctx.pick(&v))
        }
    }

    /// A handle of a node that has been removed (and not been reused).
    fn stale(&self, c: usize) -> Option<NodeIndex> {
        let v: Vec<NodeIndex> = self.clients[c]
            .nodes
            .iter()
            .cloned()
            .filter(|n| !self.p.tree.graph().contains_node(*n))
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.ctx.pick(&v))
        }
    }

    fn label(&self) -> String {
        self.g.word(self.ctx, Kind::Label)
    }

    /// Run one operation of one client. `true` if it took effect.
    fn step(&mut self) -> Res<bool> {
        let ctx = self.ctx;
        let c = ctx.below(self.clients.len());
        // the client looks around
        if ctx.chance(1, 3) {
            let live = self.p.m.live();
            let n = *ctx.pick(&live);
            let h = self.h(n);
            self.clients[c].nodes.push(h);
            if let Some(e) = in_edge(&self.p.tree, h) {
                self.clients[c].edges.push(e);
            }
            if let Some((_, e)) = self.p.sec.first() {
                self.clients[c].edges.push(*e);
            }
        }
        let bad = ctx.chance(self.bad, 100);
        let before = if self.strict { Some(snap(&self.p.tree)) } else { None };
        let copy = if self.strict { Some(self.p.tree.clone()) } else { None };
        let (what, done) = if bad { self.bad_op(c)? } else { self.good_op()? };
        ctx.event(what, done as u64, self.p.m.n() as u64);
        ctx.note(|| format!("{}{}\n{}", what, if done { "" } else { " (refused)" }, self.p.m.canon().show()));
        let class = if done { "content" } else { "refusal-effect" };
        let what_s = format!("{} {}", if done { "after" } else { "after refused" }, what);
        if !done && what != "nothing" {
            self.refused += 1;
            ctx.fault("refused_operation");
        }
        if let (Some(b), false) = (before, done) {
            let a = sut_ok("inspecting a tree", || snap(&self.p.tree))?;
            ensure!(
                a.text == b.text,
                "refusal-effect",
                "{}: tree changed\nbefore:\n{}\nafter:\n{}",
                what_s,
                b.text,
                a.text
            );
            ensure!(
                a == b,
                "refusal-effect",
                "{}: the tree's order or handles changed\nbefore: {:?}\nafter: {:?}",
                what_s,
                b,
                a
            );
            let _ = copy;
        }
        self.p.check(&what_s, class)?;
        Ok(done)
    }

    fn good_op(&mut self) -> Res<(&'static str, bool)> {
        let ctx = self.ctx;
        let root_term = self.p.m.nodes[self.p.m.root].term;
        let kind = ctx.weighted(&[3, 6, 5, 3, 6, 8, 2, 2, 2, 4, 4, 2]);
        let t = &mut self.p.tree;
        match kind {
            0 => {
                let f = self.g.word(ctx, Kind::Form);
                let pos = self.g.word(ctx, Kind::Pos);
                let want = if root_term { Want::Err } else { Want::Ok };
                let r = judge(want, sut(|| es(t.push_terminal(f.as_str(), pos.as_str()))), "push_terminal")?;
                let Some(h) = r else { return Ok(("push_terminal", false)) };
                let x = self.p.m.add_term(&f, &pos);
                let root = self.p.m.root;
                self.p.m.attach(root, x);
                self.p.m.order.push(x);
                self.new_handle(x, h);
                Ok(("push_terminal", true))
            }
            1 => {
                let Some(par) = self.pick(|m, n| !m.nodes[n].term) else { return Ok(("nothing", false)) };
                let n = self.p.m.n();
                let idx = ctx.below(n + 1);
                let f = self.g.word(ctx, Kind::Form);
                let pos = self.g.word(ctx, Kind::Pos);
                let mut term = Terminal::new(f.as_str(), pos.as_str(), idx);
                let mut lemma = None;
                if ctx.chance(1, 3) {
                    let l = self.g.word(ctx, Kind::Lemma);
                    term.set_lemma(Some(l.as_str()));
                    lemma = Some(l);
                }
                let mut kv = None;
                if ctx.chance(1, 3) {
                    let k = self.g.word(ctx, Kind::Key);
                    let v = self.g.word(ctx, Kind::Val);
                    term.features_mut().insert(k.as_str(), Some(v.as_str()));
                    kv = Some((k, v));
                }
                let hp = self.p.h[par].unwrap();
                let t = &mut self.p.tree;
                let r = judge(Want::Ok, sut(|| Ok(t.insert_terminal(hp, term))), "insert_terminal")?;
                let x = self.p.m.add_term(&f, &pos);
                self.p.m.nodes[x].lemma = lemma;
                if let Some((k, v)) = kv {
                    self.p.m.nodes[x].feats.insert(k, Some(v));
                }
                self.p.m.attach(par, x);
                self.p.m.order.insert(idx, x);
                self.new_handle(x, r.unwrap());
                Ok(("insert_terminal", true))
            }
            2 => {
                let n = self.pick(|_, _| true).unwrap();
                let l = self.label();
                let h = self.h(n);
                let t = &mut self.p.tree;
                let r = judge(Want::Ok, sut(|| Ok(t.insert_unary_above(h, l.as_str()))), "insert_unary_above")?;
                let x = self.p.m.unary_above(n, &l);
                self.new_handle(x, r.unwrap());
                Ok(("insert_unary_above", true))
            }
            3 => {
                let Some(n) = self.pick(|m, n| !m.nodes[n].term) else { return Ok(("nothing", false)) };
                let l = self.label();
                let h = self.h(n);
                let t = &mut self.p.tree;
                let r = judge(Want::Ok, sut(|| es(t.insert_unary_below(h, l.as_str()))), "insert_unary_below")?;
                let x = self.p.m.unary_below(n, &l);
                self.new_handle(x, r.unwrap());
                Ok(("insert_unary_below", true))
            }
            4 => {
                let n = self.pick(|_, _| true).unwrap();
                let term = self.p.m.nodes[n].term;
                let mut m2 = self.p.m.clone();
                let ok = if term { m2.remove_term(n) } else { m2.remove_nt(n) };
                let h = self.h(n);
                let t = &mut self.p.tree;
                let what = if term { "remove_node(word)" } else { "remove_node" };
                let r = judge(
                    if ok { Want::Ok } else { Want::Err },
                    sut(|| es(t.remove_node(h))),
                    what,
                )?;
                let Some(node) = r else { return Ok((what, false)) };
                let mn = &self.p.m.nodes[n];
                ensure!(
                    node.label() == mn.label
                        && node.is_terminal() == term
                        && node.terminal().map(|t| t.form() == mn.form).unwrap_or(true)
                        && node.features().map(|f| f.inner().clone()).unwrap_or_default() == mn.feats,
                    "content",
                    "remove_node returned {:?}",
                    node
                );
                self.p.m = m2;
                Ok((what, true))
            }
            5 => {
                // reattach
                let Some(n) = self.pick(|m, n| n != m.root) else { return Ok(("nothing", false)) };
                let Some(np) = self.pick(|m, x| !m.nodes[x].term) else { return Ok(("nothing", false)) };
                let m = &self.p.m;
                let par = m.nodes[n].parent.unwrap();
                let lone = m.nodes[par].children.len() == 1 && par != np;
                let ok = !m.is_anc_or_self(n, np) && !lone;
                let (h, hp) = (self.h(n), self.h(np));
                let t = &mut self.p.tree;
                let e = sut_ok("parent", || t.parent(h))?.map(|x| x.1);
                let Some(e) = e else { return fail("content", "a node has lost its parent") };
                let old = self.p.m.nodes[n].edge.clone();
                let r = judge(
                    if ok { Want::Ok } else { Want::Err },
                    sut(|| es(t.reattach_node(hp, e))),
                    "reattach_node",
                )?;
                let Some((ne, oe)) = r else { return Ok(("reattach_node", false)) };
                ensure!(
                    oe.is_primary() && oe.label() == old.as_deref(),
                    "content",
                    "reattach_node returned edge {:?} instead of {:?}",
                    oe,
                    old
                );
                ensure!(
                    self.p.tree.parent(h) == Some((hp, ne)),
                    "content",
                    "reattach_node returned {:?}, the edge is {:?}",
                    ne,
                    self.p.tree.parent(h)
                );
                self.p.m.attach(np, n);
                self.p.m.nodes[n].edge = None;
                Ok(("reattach_node", true))
            }
            6 => {
                // secondary edges
                let (Some(a), Some(b)) = (self.pick(|m, x| !m.nodes[x].term), self.pick(|_, _| true)) else {
                    return Ok(("nothing", false));
                };
                if a == b {
                    return Ok(("nothing", false));
                }
                let l = if ctx.chance(2, 3) { Some(self.g.word(ctx, Kind::SecLabel)) } else { None };
                let (ha, hb) = (self.h(a), self.h(b));
                let t = &mut self.p.tree;
                let e = sut_ok("add_secondary_edge", || t.add_secondary_edge(ha, hb, l.as_deref()))?;
                let id = self.p.m.add_sec(a, b, l);
                self.p.sec.push((id, e));
                Ok(("add_secondary_edge", true))
            }
            7 => {
                if self.p.sec.is_empty() {
                    return Ok(("nothing", false));
                }
                let (id, e) = *ctx.pick(&self.p.sec);
                let t = &mut self.p.tree;
                let got = sut_ok("remove_secondary_edge", || t.remove_secondary_edge(e))?;
                let s = self.p.m.sec.iter().find(|s| s.id == id).cloned().expect("edge");
                ensure!(
                    got.as_ref().map(|g| !g.is_primary() && g.label() == s.label.as_deref()) == Some(true),
                    "content",
                    "remove_secondary_edge returned {:?}",
                    got
                );
                self.p.m.sec.retain(|s| s.id != id);
                self.p.sec.retain(|s| s.0 != id);
                Ok(("remove_secondary_edge", true))
            }
            8 => {
                // move a secondary edge
                if self.p.sec.is_empty() {
                    return Ok(("nothing", false));
                }
                let (id, e) = *ctx.pick(&self.p.sec);
                let s = self.p.m.sec.iter().find(|s| s.id == id).cloned().expect("edge");
                let Some(np) = self.pick(|m, x| !m.nodes[x].term && !m.is_anc_or_self(s.child, x)) else {
                    return Ok(("nothing", false));
                };
                let hp = self.h(np);
                let t = &mut self.p.tree;
                let (ne, oe) = judge(Want::Ok, sut(|| es(t.reattach_node(hp, e))), "reattach_node(secondary)")?.unwrap();
                ensure!(
                    !oe.is_primary() && oe.label() == s.label.as_deref(),
                    "content",
                    "reattach_node returned edge {:?} instead of {:?}",
                    oe,
                    s.label
                );
                self.p.m.sec.retain(|s| s.id != id);
                self.p.sec.retain(|s| s.0 != id);
                let id = self.p.m.add_sec(np, s.child, None);
                self.p.sec.push((id, ne));
                Ok(("reattach_node(secondary)", true))
            }
            9 => {
                let w = *ctx.pick(&self.p.m.order);
                let idx = ctx.below(self.p.m.n());
                let h = self.h(w);
                let t = &mut self.p.tree;
                judge(Want::Ok, sut(|| Ok(t.move_terminal(h, idx))), "move_terminal")?;
                self.p.m.order.retain(|x| *x != w);
                self.p.m.order.insert(idx, w);
                Ok(("move_terminal", true))
            }
            10 => {
                // content
                let n = self.pick(|_, _| true).unwrap();
                let h = self.h(n);
                let term = self.p.m.nodes[n].term;
                match ctx.below(5) {
                    0 => {
                        let l = if term { self.g.word(ctx, Kind::Pos) } else { self.label() };
                        let t = &mut self.p.tree;
                        let old = sut_ok("set_label", || t[h].set_label(l.as_str()))?;
                        ensure!(old == self.p.m.nodes[n].label, "content", "set_label returned {:?}", old);
                        self.p.m.nodes[n].label = l;
                    }
                    1 => {
                        let k = self.g.word(ctx, Kind::Key);
                        let v = if ctx.chance(3, 4) { Some(self.g.word(ctx, Kind::Val)) } else { None };
                        let t = &mut self.p.tree;
                        let old = sut_ok("features", || t[h].features_mut().insert(k.as_str(), v.as_deref()))?;
                        let exp = self.p.m.nodes[n].feats.insert(k, v).flatten();
                        ensure!(old == exp, "content", "inserting a feature replaced {:?} instead of {:?}", old, exp);
                    }
                    2 => {
                        if let Some(k) = self.p.m.nodes[n].feats.keys().next().cloned() {
                            let t = &mut self.p.tree;
                            let got = sut_ok("features", || {
                                let r = t[h].features().and_then(|f| f.get_val(&k)).map(|v| v.map(str::to_string));
                                (r, t[h].features_mut().remove(&k))
                            })?;
                            let exp = self.p.m.nodes[n].feats.remove(&k);
                            ensure!(
                                got.0 == exp && got.1 == exp,
                                "content",
                                "get_val and remove give {:?} instead of {:?}",
                                got,
                                exp
                            );
                        } else if ctx.chance(1, 2) {
                            let k = self.g.word(ctx, Kind::Key);
                            let t = &mut self.p.tree;
                            let mut f = Features::new();
                            f.insert(k.as_str(), Some("x"));
                            let old = sut_ok("set_features", || t[h].set_features(Some(f)))?;
                            ensure!(
                                old.map_or(true, |f| f.inner().is_empty()),
                                "content",
                                "set_features returned features of a node without"
                            );
                            self.p.m.nodes[n].feats.insert(k, Some("x".into()));
                        }
                    }
                    3 if !term => {
                        let t = &mut self.p.tree;
                        let old = sut_ok("set_features", || t[h].set_features(None))?;
                        let exp = std::mem::take(&mut self.p.m.nodes[n].feats);
                        ensure!(
                            old.map_or(exp.is_empty(), |f| *f.inner() == exp),
                            "content",
                            "set_features does not return the old features"
                        );
                    }
                    3 if term => {
                        let f = self.g.word(ctx, Kind::Form);
                        let l = if ctx.chance(3, 4) { Some(self.g.word(ctx, Kind::Lemma)) } else { None };
                        let t = &mut self.p.tree;
                        let old = sut_ok("terminal", || {
                            let t = t[h].terminal_mut().expect("word");
                            (t.set_form(f.as_str()), t.set_lemma(l.as_deref()))
                        })?;
                        let node = &mut self.p.m.nodes[n];
                        let exp = (std::mem::replace(&mut node.form, f), std::mem::replace(&mut node.lemma, l));
                        ensure!(old == exp, "content", "set_form and set_lemma returned {:?} instead of {:?}", old, exp);
                    }
                    _ => {
                        if n != self.p.m.root {
                            let e = if ctx.chance(3, 4) { Some(self.g.word(ctx, Kind::Edge)) } else { None };
                            let t = &mut self.p.tree;
                            let old = sut_ok("edge label", || {
                                let (_, i) = t.parent(h).expect("parent");
                                t[i].set_label(e.as_deref())
                            })?;
                            let exp = std::mem::replace(&mut self.p.m.nodes[n].edge, e);
                            ensure!(old == exp, "content", "set_label of an edge returned {:?} instead of {:?}", old, exp);
                        }
                    }
                }
                Ok(("set content", true))
            }
            _ => {
                // look at the tree through its accessors
                self.queries()?;
                Ok(("queries", true))
            }
        }
    }

    fn new_handle(&mut self, x: usize, h: NodeIndex) {
        self.p.h.resize(self.p.m.nodes.len(), None);
        self.p.h[x] = Some(h);
    }

    /// Accessors agree with the model.
    fn queries(&mut self) -> Res {
        let ctx = self.ctx;
        let a = self.pick(|_, _| true).unwrap();
        let b = self.pick(|_, _| true).unwrap();
        let (ha, hb) = (self.h(a), self.h(b));
        let m = &self.p.m;
        let t = &self.p.tree;
        let sib = sut_ok("are_siblings", || t.are_siblings(ha, hb))?;
        if a != b {
            ensure!(
                sib == (m.nodes[a].parent.is_some() && m.nodes[a].parent == m.nodes[b].parent),
                "content",
                "are_siblings is {}",
                sib
            );
        }
        let up = sut_ok("siblings", || t.siblings(ha).all(|x| in_edge(t, x.0) == Some(x.1)))?;
        ensure!(up, "content", "siblings() gives wrong edges");
        let mut path = Vec::new();
        let mut x = a;
        while let Some(p) = m.nodes[x].parent {
            path.push((self.h(p), in_edge(t, self.h(x)).expect("edge")));
            x = p;
        }
        let got = sut_ok("climbing", || {
            let (mut c, mut d) = (Climber::new(ha, t), Climber::new(ha, t));
            let mut v = Vec::new();
            loop {
                match (c.next(t), d.next_with_edge(t)) {
                    (None, None) => break Some(v),
                    (Some(n), Some(x)) if n == x.0 => v.push(x),
                    _ => break None,
                }
                if v.len() > path.len() {
                    break None;
                }
            }
        })?;
        ensure!(got.as_ref() == Some(&path), "content", "the path to the root is {:?} instead of {:?}", got, path);
        let mut got: Vec<NodeIndex> = sut_ok("siblings", || t.siblings(ha).map(|x| x.0).collect())?;
        let mut exp: Vec<NodeIndex> = match m.nodes[a].parent {
            Some(p) => m.nodes[p].children.iter().filter(|x| **x != a).map(|x| self.h(*x)).collect(),
            None => vec![],
        };
        got.sort();
        exp.sort();
        ensure!(got == exp, "content", "siblings are {:?} instead of {:?}", got, exp);
        let mut got: Vec<NodeIndex> = sut_ok("descendent_terminals", || t.descendent_terminals(ha).collect())?;
        let covs = m.covs();
        let mut exp: Vec<NodeIndex> = if m.nodes[a].term {
            vec![]
        } else {
            covs[a].iter().map(|p| self.h(m.order[*p])).collect()
        };
        if m.nodes[a].term {
            got.clear();
        }
        got.sort();
        exp.sort();
        ensure!(got == exp, "content", "descendent_terminals are {:?} instead of {:?}", got, exp);
        let s = sut_ok("secondary_parent", || t.secondary_parent(ha))?;
        let exp: Vec<NodeIndex> = m.sec.iter().filter(|s| s.child == a).map(|s| self.h(s.parent)).collect();
        ensure!(
            s.map(|x| exp.contains(&x.0)).unwrap_or(exp.is_empty()),
            "content",
            "secondary_parent is {:?} of {:?}",
            s,
            exp
        );
        ctx.probe("queries");
        Ok(())
    }

    /// An operation that has to be refused.
    fn bad_op(&mut self, c: usize) -> Res<(&'static str, bool)> {
        let ctx = self.ctx;
        let root_term = self.p.m.nodes[self.p.m.root].term;
        let n_words = self.p.m.n();
        macro_rules! or_skip {
            ($e:expr) => {
                match $e {
                    Some(x) => x,
                    None => return Ok(("nothing", false)),
                }
            };
        }
        let kind = ctx.below(22);
        match kind {
            0 => {
                if !root_term {
                    return Ok(("nothing", false));
                }
                let t = &mut self.p.tree;
                judge(Want::Err, sut(|| es(t.push_terminal("x", "X"))), "push_terminal to a single word")?;
                Ok(("push_terminal", false))
            }
            1 => {
                let w = or_skip!(self.pick(|m, n| m.nodes[n].term));
                let h = self.h(w);
                let i = ctx.below(n_words + 1);
                let t = &mut self.p.tree;
                judge(
                    Want::Panic,
                    sut(|| Ok(t.insert_terminal(h, Terminal::new("x", "X", i)))),
                    "insert_terminal below a word",
                )?;
                Ok(("insert_terminal below a word", false))
            }
            2 => {
                let w = or_skip!(self.pick(|m, n| !m.nodes[n].term));
                let h = self.h(w);
                let i = n_words + 1 + ctx.below(3);
                let t = &mut self.p.tree;
                judge(
                    Want::Panic,
                    sut(|| Ok(t.insert_terminal(h, Terminal::new("x", "X", i)))),
                    "insert_terminal out of bounds",
                )?;
                Ok(("insert_terminal out of bounds", false))
            }
            3 => {
                let w = or_skip!(self.pick(|m, n| m.nodes[n].term));
                let h = self.h(w);
                let t = &mut self.p.tree;
                judge(Want::Err, sut(|| es(t.insert_unary_below(h, "X"))), "insert_unary_below a word")?;
                Ok(("insert_unary_below a word", false))
            }
            4 => {
                let w = or_skip!(self.pick(|m, n| {
                    m.nodes[n].term && m.nodes[n].parent.map(|p| m.nodes[p].children.len() == 1).unwrap_or(true)
                }));
                let h = self.h(w);
                let t = &mut self.p.tree;
                judge(Want::Err, sut(|| es(t.remove_node(h))), "removing the last word of a branch")?;
                Ok(("remove_node(last word)", false))
            }
            5 => {
                let r = self.p.m.root;
                if root_term || self.p.m.nodes[r].children.len() < 2 {
                    return Ok(("nothing", false));
                }
                let h = self.h(r);
                let t = &mut self.p.tree;
                judge(Want::Err, sut(|| es(t.remove_node(h))), "removing a branching root")?;
                Ok(("remove_node(branching root)", false))
            }
            6 => {
                let h = or_skip!(self.stale(c));
                let t = &mut self.p.tree;
                judge(Want::Panic, sut(|| es(t.remove_node(h))), "removing a removed node")?;
                Ok(("remove_node(removed)", false))
            }
            7 => {
                // below itself or a descendant
                let n = or_skip!(self.pick(|m, n| n != m.root));
                let d = or_skip!(self.pick(|m, x| m.is_anc_or_self(n, x)));
                self.refused_reattach(n, d, "reattach_node below itself")
            }
            8 => {
                let n = or_skip!(self.pick(|m, n| n != m.root));
                let d = or_skip!(self.pick(|m, x| m.nodes[x].term));
                self.refused_reattach(n, d, "reattach_node below a word")
            }
            9 => {
                let n = or_skip!(self.pick(|m, n| {
                    m.nodes[n].parent.map(|p| m.nodes[p].children.len() == 1).unwrap_or(false)
                }));
                let par = self.p.m.nodes[n].parent.unwrap();
                let d = or_skip!(self.pick(|m, x| !m.nodes[x].term && x != par));
                self.refused_reattach(n, d, "reattach_node of an only child")
            }
            10 => {
                let n = or_skip!(self.pick(|m, n| n != m.root));
                let s = or_skip!(self.stale(c));
                let h = self.h(n);
                let t = &mut self.p.tree;
                judge(
                    Want::Panic,
                    sut(|| {
                        let (_, e) = t.parent(h).expect("parent");
                        es(t.reattach_node(s, e))
                    }),
                    "reattach_node below a removed node",
                )?;
                Ok(("reattach_node below a removed node", false))
            }
            11 => {
                // an edge that is gone
                let v: Vec<EdgeIndex> = self.clients[c]
                    .edges
                    .iter()
                    .cloned()
                    .filter(|e| self.p.tree.graph().edge_weight(*e).is_none())
                    .collect();
                if v.is_empty() {
                    return Ok(("nothing", false));
                }
                let e = *ctx.pick(&v);
                if ctx.chance(1, 2) {
                    let t = &mut self.p.tree;
                    let r = sut_ok("remove_secondary_edge", || t.remove_secondary_edge(e))?;
                    ensure!(r.is_none(), "accepted", "remove_secondary_edge of a removed edge gave {:?}", r);
                    return Ok(("remove_secondary_edge(removed)", false));
                }
                let h = self.h(self.p.m.root);
                let t = &mut self.p.tree;
                judge(Want::Panic, sut(|| es(t.reattach_node(h, e))), "reattach_node of a removed edge")?;
                Ok(("reattach_node(removed edge)", false))
            }
            12 => {
                let n = or_skip!(self.pick(|m, n| n != m.root));
                let h = self.h(n);
                let t = &mut self.p.tree;
                let r = sut_ok("remove_secondary_edge", || {
                    let (_, e) = t.parent(h).expect("parent");
                    t.remove_secondary_edge(e)
                })?;
                ensure!(r.is_none(), "accepted", "remove_secondary_edge removed the edge {:?} to the parent", r);
                Ok(("remove_secondary_edge(primary)", false))
            }
            13 => {
                let w = *ctx.pick(&self.p.m.order);
                let i = n_words + ctx.below(3);
                let h = self.h(w);
                let t = &mut self.p.tree;
                judge(Want::Panic, sut(|| Ok(t.move_terminal(h, i))), "move_terminal out of bounds")?;
                Ok(("move_terminal out of bounds", false))
            }
            14 => {
                let n = or_skip!(self.pick(|m, n| !m.nodes[n].term));
                let h = self.h(n);
                let covs = self.p.m.covs();
                let i = ctx.below(n_words);
                let want = if covs[n][0] == i { Want::Any } else { Want::Panic };
                let t = &mut self.p.tree;
                judge(want, sut(|| Ok(t.move_terminal(h, i))), "move_terminal of a nonterminal")?;
                Ok(("move_terminal(nonterminal)", false))
            }
            15 => {
                let k = match ctx.below(3) {
                    0 => n_words + 1 + ctx.below(3),
                    1 => ctx.below(n_words),
                    _ => 0,
                };
                let t = &mut self.p.tree;
                let tags: Vec<String> = (0..k).map(|i| format!("Q{}", i)).collect();
                judge(Want::Err, sut(|| es(t.annotate_pos(tags))), "annotate_pos with a wrong number of tags")?;
                Ok(("annotate_pos", false))
            }
            16 => {
                // a chain feature without a value somewhere
                if !ctx.chance(1, 2) && !self.p.m.live().iter().any(|n| matches!(self.p.m.nodes[*n].feats.get("unary_chain"), Some(None))) {
                    let n = self.pick(|_, _| true).unwrap();
                    let h = self.h(n);
                    let t = &mut self.p.tree;
                    sut_ok("features", || t[h].features_mut().insert::<_, String>("unary_chain", None))?;
                    self.p.m.nodes[n].feats.insert("unary_chain".into(), None);
                    if ctx.chance(1, 2) {
                        let n = self.pick(|_, _| true).unwrap();
                        if self.p.m.nodes[n].feats.get("unary_chain").is_none() {
                            let h = self.h(n);
                            let t = &mut self.p.tree;
                            sut_ok("features", || t[h].features_mut().insert("unary_chain", Some("A_B")))?;
                            self.p.m.nodes[n].feats.insert("unary_chain".into(), Some("A_B".into()));
                        }
                    }
                    return Ok(("set content", true));
                }
                if !self.p.m.live().iter().any(|n| matches!(self.p.m.nodes[*n].feats.get("unary_chain"), Some(None))) {
                    return Ok(("nothing", false));
                }
                let t = &mut self.p.tree;
                judge(Want::Err, sut(|| es(t.restore_unary_chains("_"))), "restore_unary_chains of a chain without value")?;
                Ok(("restore_unary_chains", false))
            }
            17 => {
                if self.p.m.projective() {
                    return Ok(("nothing", false));
                }
                let t = &mut self.p.tree;
                match ctx.below(4) {
                    0 => judge(Want::Err, sut(|| es(t.annotate_absolute())), "annotate_absolute of a discontinuous tree")?,
                    1 => judge(Want::Err, sut(|| es(t.annotate_relative())), "annotate_relative of a discontinuous tree")?,
                    2 => judge(Want::Err, sut(|| es(t.encode_absolute()).map(|_| ())), "encode_absolute of a discontinuous tree")?,
                    _ => judge(Want::Err, sut(|| es(t.encode_relative()).map(|_| ())), "encode_relative of a discontinuous tree")?,
                };
                Ok(("encode discontinuous", false))
            }
            18 => {
                if self.p.m.projective() {
                    return Ok(("nothing", false));
                }
                let f = match ctx.below(3) {
                    0 => PTBFormat::Simple,
                    1 => PTBFormat::PTB,
                    _ => PTBFormat::TueBa,
                };
                let t = &self.p.tree;
                judge(Want::Err, sut(|| es(f.tree_to_string(t))), "printing a discontinuous tree")?;
                Ok(("print discontinuous", false))
            }
            19 => {
                if !root_term {
                    return Ok(("nothing", false));
                }
                let t = &mut self.p.tree;
                if ctx.chance(1, 2) {
                    judge(Want::Err, sut(|| es(t.annotate_parent_tag("k"))), "annotate_parent_tag of a single word")?;
                } else {
                    judge(
                        Want::Err,
                        sut(|| es(t.insert_intermediate(|_, _| Some("X".to_string())))),
                        "insert_intermediate into a single word",
                    )?;
                }
                Ok(("bulk operation on a single word", false))
            }
            20 => {
                if root_term {
                    return Ok(("nothing", false));
                }
                let w = or_skip!(self.pick(|m, n| m.nodes[n].term));
                let h = self.h(w);
                let t = &mut self.p.tree;
                // at least one word is selected
                let sel = NodeIndex::new(self.p.h[*ctx.pick(&self.p.m.order)].unwrap().index());
                judge(
                    Want::Panic,
                    sut(|| Ok(t.reattach_terminals(h, |_, x| x == sel || x.index() % 2 == 0))),
                    "reattach_terminals below a word",
                )?;
                Ok(("reattach_terminals below a word", false))
            }
            _ => {
                // a secondary edge onto itself
                if self.p.sec.is_empty() {
                    return Ok(("nothing", false));
                }
                let (id, e) = *ctx.pick(&self.p.sec);
                let s = self.p.m.sec.iter().find(|s| s.id == id).cloned().expect("edge");
                if ctx.chance(1, 2) {
                    let w = or_skip!(self.pick(|m, n| m.nodes[n].term));
                    let h = self.h(w);
                    let t = &mut self.p.tree;
                    judge(Want::Err, sut(|| es(t.reattach_node(h, e))), "reattach_node(secondary) below a word")?;
                    return Ok(("reattach_node(secondary) below a word", false));
                }
                let h = self.h(s.child);
                let t = &mut self.p.tree;
                judge(Want::Err, sut(|| es(t.reattach_node(h, e))), "reattach_node(secondary) below itself")?;
                Ok(("reattach_node(secondary) below itself", false))
            }
        }
    }

    fn refused_reattach(&mut self, n: usize, d: usize, what: &'static str) -> Res<(&'static str, bool)> {
        let (h, hd) = (self.h(n), self.h(d));
        let t = &mut self.p.tree;
        judge(
            Want::Err,
            sut(|| {
                let (_, e) = t.parent(h).expect("parent");
                es(t.reattach_node(hd, e))
            }),
            what,
        )?;
        Ok((what, false))
    }
}

fn n_ops(ctx: &Ctx) -> usize {
    match ctx.weighted(&[40, 40, 15, 5]) {
        0 => ctx.range(1, 6),
        1 => ctx.range(3, 20),
        2 => ctx.range(10, 60),
        _ => ctx.range(30, 150),
    }
}

// ---- T01 -------------------------------------------------------------------

/// Run one arbitrary operation, valid or not. Panics are the caller's
/// business.
fn raw_op(ctx: &Ctx, g: &Gen, t: &mut Tree, held: &[NodeIndex], mut_only: bool) {
    let all: Vec<NodeIndex> = t.graph().node_indices().collect();
    let pick = || {
        if !held.is_empty() && ctx.chance(1, 5) {
            *ctx.pick(held)
        } else {
            *ctx.pick(&all)
        }
    };
    let k = ctx.weighted(&[2, 5, 4, 3, 7, 9, 1, 4, 2]);
    let n = pick();
    match k {
        0 => {
            let _ = t.push_terminal(g.word(ctx, Kind::Form), g.word(ctx, Kind::Pos));
        }
        1 => {
            let i = ctx.below(t.n_terminals() + 2);
            t.insert_terminal(n, Terminal::new("w", "W", i));
        }
        2 => {
            t.insert_unary_above(n, "U");
        }
        3 => {
            let _ = t.insert_unary_below(n, "B");
        }
        4 => {
            let _ = t.remove_node(n);
        }
        5 => {
            let to = pick();
            if let Some((_, e)) = t.parent(n) {
                let _ = t.reattach_node(to, e);
            }
        }
        6 => {
            let to = pick();
            if t.graph().contains_node(n) && t.graph().contains_node(to) {
                t.add_secondary_edge(n, to, Some("s"));
            }
        }
        7 => {
            let i = ctx.below(t.n_terminals() + 2);
            t.move_terminal(n, i);
        }
        _ => {
            t[n].set_label("Q");
        }
    }
    let _ = mut_only;
}

/// What a simulated callback does: look at the tree, decide, maybe die.
struct Callback<'a> {
    ctx: &'a Ctx,
    die_at: usize,
    calls: Cell<usize>,
    bad: RefCell<Option<String>>,
}

impl<'a> Callback<'a> {
    fn new(ctx: &'a Ctx) -> Callback<'a> {
        let die_at = if ctx.chance(1, 2) { ctx.range(1, 12) } else { usize::MAX };
        Callback {
            ctx,
            die_at,
            calls: Cell::new(0),
            bad: RefCell::new(None),
        }
    }

    fn enter(&self, t: &Tree) {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() <= 40 && self.bad.borrow().is_none() {
            // dying here must leave a well-formed tree
            if let Err(e) = observe(t) {
                *self.bad.borrow_mut() = Some(e);
            }
        }
        if self.calls.get() >= self.die_at {
            self.ctx.fault("callback_panic");
            std::panic::panic_any(Injected);
        }
    }
}

pub fn t01(ctx: &Ctx) -> Res {
    let mut g = free_gen(ctx);
    if g.max_terms > 10 && g.max_terms <= 24 {
        g.max_terms = 14;
    }
    let m = g.tree(ctx);
    let mut t = if ctx.chance(1, 6) {
        match read_negra(ctx, &m) {
            Some(t) => t,
            None => return Ok(()),
        }
    } else {
        let cfg = BuildCfg { shuffle: ctx.chance(2, 3), scramble: ctx.chance(1, 3) };
        match build(ctx, &m, cfg) {
            Ok(p) => p.tree,
            Err(f) if f.class == "malformed" => return Err(f),
            Err(_) => match read_negra(ctx, &m) {
                Some(t) => t,
                None => return Ok(()),
            },
        }
    };
    observe_wf(&t, "initial tree")?;
    let mut held: Vec<NodeIndex> = t.graph().node_indices().collect();
    let k = n_ops(ctx);
    for _ in 0..k {
        if t.graph().node_count() > 120 {
            break;
        }
        let kind = ctx.weighted(&[60, 5, 5, 5, 5, 4, 3, 3, 2, 2, 3, 2]);
        let cb = Callback::new(ctx);
        let salt = ctx.below(7);
        let dense = ctx.chance(1, 2);
        let sel = |n: NodeIndex| (n.index() * 5 + salt) % 7 < if dense { 5 } else { 2 };
        let nodes: Vec<NodeIndex> = t.graph().node_indices().collect();
        let target = *ctx.pick(&nodes);
        let mut op = "edit";
        let r = sut(|| {
            let t = &mut t;
            match kind {
                0 => raw_op(ctx, &g, t, &held, false),
                1 => {
                    op = "filter_nonterminals";
                    let _ = t.filter_nonterminals(|t, n| {
                        cb.enter(t);
                        sel(n)
                    });
                }
                2 => {
                    op = "reattach_terminals";
                    t.reattach_terminals(target, |t, n| {
                        cb.enter(t);
                        sel(n)
                    });
                }
                3 => {
                    op = "insert_intermediate";
                    let _ = t.insert_intermediate(|t, n| {
                        cb.enter(t);
                        if sel(n) {
                            Some("I".to_string())
                        } else {
                            None
                        }
                    });
                }
                4 => {
                    op = "map_climber_path";
                    let budget = Cell::new(ctx.range(0, 8));
                    t.map_climber_path(|t, anc, term| {
                        cb.enter(t);
                        if budget.get() > 0 && ctx.chance(1, 3) {
                            budget.set(budget.get() - 1);
                            let _ = sut(|| raw_op(ctx, &g, t, &[anc, term], true));
                        }
                        !t.graph().contains_node(anc) || ctx.chance(1, 5)
                    });
                }
                5 => {
                    op = "collapse_unary_chains";
                    let _ = t.collapse_unary_chains("_");
                }
                6 => {
                    op = "restore_unary_chains";
                    let _ = t.restore_unary_chains("_");
                }
                7 => {
                    op = "projectivize";
                    t.projectivize();
                }
                8 => {
                    op = "project_tag_set";
                    t.project_tag_set("tag", |t, n| {
                        cb.enter(t);
                        sel(n)
                    });
                }
                9 => {
                    op = "project_ids";
                    t.project_ids("id", |t, n| {
                        cb.enter(t);
                        sel(n)
                    });
                }
                10 => {
                    op = "annotate";
                    let n = t.n_terminals() + ctx.below(3) - ctx.below(2);
                    let _ = t.annotate_pos((0..n).map(|i| {
                        cb.calls.set(cb.calls.get() + 1);
                        if cb.calls.get() >= cb.die_at {
                            ctx.fault("callback_panic");
                            std::panic::panic_any(Injected);
                        }
                        format!("P{}", i)
                    }));
                    let _ = t.annotate_parent_tag("parent");
                }
                _ => {
                    op = "encode";
                    let _ = t.annotate_absolute();
                    let _ = t.annotate_relative();
                    let _ = t.remove_dummy_nodes();
                }
            }
        });
        ctx.event("op", kind as u64, r.is_err() as u64);
        ctx.note(|| {
            format!(
                "{}{}",
                op,
                match &r {
                    Ok(()) => String::new(),
                    Err(p) if p.injected => " (callback panicked)".into(),
                    Err(p) => format!(" (panicked: {})", p.msg),
                }
            )
        });
        if let Err(p) = &r {
            if !p.injected {
                ctx.probe("documented_panic");
                ctx.nontrivial();
            }
        }
        if kind > 0 {
            ctx.nontrivial();
        }
        let what = format!(
            "after {}{}",
            op,
            match &r {
                Ok(()) => "",
                Err(p) if p.injected => " aborted by its callback",
                Err(_) => " (panicked)",
            }
        );
        if let Some(e) = cb.bad.borrow_mut().take() {
            return fail("malformed", format!("tree shown to the callback of {}: {}", op, e));
        }
        observe_wf(&t, &what)?;
        if ctx.chance(1, 3) {
            held = t.graph().node_indices().collect();
        }
    }
    Ok(())
}

// ---- T02 -------------------------------------------------------------------

pub fn t02(ctx: &Ctx) -> Res {
    let g = free_gen(ctx);
    let m = g.tree(ctx);
    let p = if ctx.chance(1, 5) {
        match read_negra(ctx, &m) {
            Some(t) => match Pair::adopt(t, "read tree") {
                Ok(p) => p,
                Err(_) => return Ok(()),
            },
            None => return Ok(()),
        }
    } else {
        build(ctx, &m, BuildCfg { shuffle: ctx.chance(2, 3), scramble: ctx.chance(1, 2) })?
    };
    let mut h = Hist::new(ctx, g, p, 6, false);
    let k = n_ops(ctx);
    let mut done = 0;
    for _ in 0..k {
        match h.step() {
            Ok(true) => done += 1,
            Ok(false) => {}
            // what a refused operation does is another property
            Err(f) if f.class == "refusal-effect" => return Ok(()),
            Err(f) if f.class == "accepted" => return Ok(()),
            Err(f) => return Err(f),
        }
        if h.p.m.n() > 60 {
            break;
        }
    }
    if done >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

// ---- T03 -------------------------------------------------------------------

pub fn t03(ctx: &Ctx) -> Res {
    let mut g = free_gen(ctx);
    g.root_term = true;
    let m = g.tree(ctx);
    let Some(p) = any_pair(ctx, &m) else { return Ok(()) };
    let bad = *ctx.pick(&[40, 70, 90]);
    let mut h = Hist::new(ctx, g, p, bad, true);
    for _ in 0..n_ops(ctx) {
        match h.step() {
            Ok(_) => {}
            Err(f) if f.class == "refusal-effect" || f.class == "accepted" => return Err(f),
            // a refusal that takes the wrong way out
            Err(f) if f.class == "panic" => {
                return Err(f);
            }
            // what accepted operations do is another property: give up
            Err(_) => return Ok(()),
        }
        if h.p.m.n() > 40 {
            break;
        }
    }
    Ok(())
}

// ---- T04 -------------------------------------------------------------------

pub type Moves = Option<Vec<(NodeIndex, Option<String>, bool, NodeIndex)>>;

pub fn do_projectivize(t: &mut Tree) -> Res<Moves> {
    let r = sut_ok("projectivize", || t.projectivize())?;
    Ok(r.map(|v| {
        v.into_iter()
            .map(|(p, e, c)| (p, e.label().map(str::to_string), e.is_primary(), c))
            .collect()
    }))
}

/// Check the result of projectivizing against the model.
pub fn check_projectivize(p: &mut Pair, moves: &Moves, what: &str) -> Res {
    let before = p.m.clone();
    if before.projective() {
        ensure!(moves.is_none(), "moves", "{}: continuous tree: returned {:?}", what, moves);
        return p.check(what, "content");
    }
    let Some(moves) = moves else {
        return fail("moves", format!("{}: discontinuous tree: returned None", what));
    };
    let obs = observe_wf(&p.tree, what)?;
    ensure!(p.tree.is_projective(), "discontinuous", "{}: the result is discontinuous", what);
    // final parents
    let mut fin = vec![None; p.m.nodes.len()];
    for (i, n) in p.h.iter().enumerate() {
        if let Some(h) = n {
            ensure!(p.tree.graph().contains_node(*h), "content", "{}: a node is gone", what);
            if let Some((par, _)) = p.tree.parent(*h) {
                fin[i] = p.model_of(par);
                ensure!(fin[i].is_some(), "content", "{}: a node has been added", what);
            }
        }
    }
    let ids: Vec<(usize, usize)> = {
        let mut v = Vec::new();
        for (par, _, _, c) in moves {
            let (Some(a), Some(b)) = (p.model_of(*par), p.model_of(*c)) else {
                return fail("moves", format!("{}: returned unknown nodes", what));
            };
            v.push((a, b));
        }
        v
    };
    for (i, (old, c)) in ids.iter().enumerate() {
        let (_, label, primary, _) = &moves[i];
        let mn = &p.m.nodes[*c];
        ensure!(
            mn.parent == Some(*old),
            "moves",
            "{}: move {} of {:?}: the original parent is wrong\n{}",
            what,
            i,
            mn.label,
            before.canon().show()
        );
        ensure!(
            *primary && *label == mn.edge,
            "moves",
            "{}: move {} reports edge {:?} instead of {:?}",
            what,
            i,
            label,
            mn.edge
        );
        // where it goes: to its final parent unless it moves again
        let to = match ids[i + 1..].iter().find(|x| x.1 == *c) {
            Some(x) => x.0,
            None => match fin[*c] {
                Some(f) => f,
                None => return fail("moves", format!("{}: the root was moved", what)),
            },
        };
        let covs = p.m.covs();
        let ca = &covs[to];
        let fills = covs[*c].iter().any(|x| *x > ca[0] && *x < ca[ca.len() - 1] && ca.binary_search(x).is_err());
        ensure!(
            fills,
            "moves",
            "{}: move {}: {} does not interrupt {}\n{}",
            what,
            i,
            show_node(&p.m, *c),
            show_node(&p.m, to),
            before.canon().show()
        );
        ensure!(
            !p.m.is_anc_or_self(*c, to) && p.m.is_anc_or_self(*old, to),
            "moves",
            "{}: move {}: {} is not the highest constituent that interrupts {}\n{}",
            what,
            i,
            show_node(&p.m, *c),
            show_node(&p.m, to),
            before.canon().show()
        );
        // everything below the target has been dealt with
        for x in p.m.live() {
            if x != to && before.is_anc_or_self(to, x) && p.m.is_anc_or_self(to, x) {
                let cx = &covs[x];
                ensure!(
                    cx[cx.len() - 1] - cx[0] + 1 == cx.len(),
                    "moves",
                    "{}: move {} fills the gap of {} before that of {} below it\n{}",
                    what,
                    i,
                    show_node(&p.m, to),
                    show_node(&p.m, x),
                    before.canon().show()
                );
            }
        }
        p.m.attach(to, *c);
    }
    let _ = obs;
    p.check(what, "content")
}

fn show_node(m: &MTree, n: usize) -> String {
    format!("{:?}{:?}", m.nodes[n].label, m.covs()[n])
}

pub fn t04(ctx: &Ctx) -> Res {
    let mut g = free_gen(ctx);
    g.discont = true;
    g.root_term = ctx.chance(1, 10);
    g.unary = ctx.chance(1, 2);
    let m = g.tree(ctx);
    // the same construction under different hash keys
    let way = ctx.chance(1, 4);
    let sub = ctx.draw(1 << 40);
    let edits = if ctx.chance(1, 2) { ctx.below(12) } else { 0 };
    let variants = ctx.range(2, 3);
    let mut results: Vec<(Canon, Moves, Vec<(NodeIndex, Vec<NodeIndex>)>)> = Vec::new();
    for v in 0..variants {
        let (m, g) = (m.clone(), g.clone());
        let job = move || -> Res<Option<(Canon, Moves, Vec<(NodeIndex, Vec<NodeIndex>)>)>> {
            seed_hash_keys(mix(sub, 77 + v as u64));
            let c = Ctx::new(Tape::random(sub), false, None);
            let p = if way {
                match read_negra(&c, &m) {
                    Some(t) => Pair::adopt(t, "read tree").ok(),
                    None => None,
                }
            } else {
                any_pair(&c, &m)
            };
            let Some(p) = p else { return Ok(None) };
            let mut h = Hist::new(&c, g, p, 0, false);
            for _ in 0..edits {
                if h.step().is_err() {
                    return Ok(None);
                }
            }
            let mut p = h.p;
            let moves = do_projectivize(&mut p.tree)?;
            check_projectivize(&mut p, &moves, "projectivized tree")?;
            let order = p.tree.graph().node_indices().map(|n| (n, p.tree.children(n).map(|x| x.0).collect())).collect();
            // again: nothing to do
            let again = do_projectivize(&mut p.tree)?;
            check_projectivize(&mut p, &again, "projectivized twice")?;
            Ok(Some((p.m.canon(), moves, order)))
        };
        let r = std::thread::Builder::new()
            .spawn(move || match sut(job) {
                Ok(r) => r,
                Err(p) => fail("panic", p.msg),
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|_| fail("panic", "thread died"))?;
        let Some(r) = r else { return Ok(()) };
        ctx.event("projectivized", r.1.as_ref().map(|x| x.len() as u64).unwrap_or(0), v as u64);
        ctx.hash_bytes(r.0.show().as_bytes());
        if r.1.is_some() {
            ctx.fault("hash_keys_changed");
        }
        if let Some(first) = results.first() {
            ensure!(
                first.0 == r.0,
                "nondeterminism",
                "the result depends on hash keys:\n{}\n{}",
                first.0.show(),
                r.0.show()
            );
            ensure!(
                first.1 == r.1,
                "nondeterminism",
                "the returned moves depend on hash keys:\n{:?}\n{:?}",
                first.1,
                r.1
            );
            ensure!(first.2 == r.2, "nondeterminism", "the order of children depends on hash keys");
        }
        results.push(r);
    }
    Ok(())
}

// ---- T05 -------------------------------------------------------------------

fn labels_of(m: &MTree, term: bool) -> Vec<String> {
    let mut v: Vec<String> = m
        .live()
        .into_iter()
        .filter(|n| m.nodes[*n].term == term)
        .map(|n| m.nodes[n].label.clone())
        .collect();
    v.sort();
    v.dedup();
    v
}

fn subset(ctx: &Ctx, v: &[String]) -> Vec<String> {
    let share = match ctx.weighted(&[10, 9, 1]) {
        0 => 1,
        1 => 3,
        _ => return v.to_vec(),
    };
    v.iter().filter(|_| ctx.chance(share, 4)).cloned().collect()
}

/// Feature values of the words, in order.
fn word_feats(p: &Pair, key: &str) -> Vec<Option<Option<String>>> {
    p.m.order
        .iter()
        .map(|w| {
            p.tree[p.h[*w].unwrap()]
                .features()
                .and_then(|f| f.inner().get(key).cloned())
        })
        .collect()
}

fn skeleton(c: &Canon) -> Vec<(usize, bool, String, Vec<usize>)> {
    c.nodes.iter().map(|n| (n.depth, n.term, n.label.clone(), n.cov.clone())).collect()
}

fn bulk_op(ctx: &Ctx, p: &mut Pair) -> Res<&'static str> {
    let root_term = p.m.nodes[p.m.root].term;
    let nt_labels = labels_of(&p.m, false);
    let kind = ctx.weighted(&[6, 8, 6, 3, 3, 3, 3, 3, 4, 4, 2, 2]);
    let what = match kind {
        0 => {
            let keep = subset(ctx, &nt_labels);
            let t = &mut p.tree;
            let r = sut_ok("filter_nonterminals", || {
                es(t.filter_nonterminals(|t, n| keep.iter().any(|k| k == t[n].label())))
            })?;
            ensure!(r.is_ok(), "refused", "filter_nonterminals: {:?}", r);
            modelops::filter(&mut p.m, |l| keep.iter().any(|k| k == l));
            "filter_nonterminals"
        }
        1 => {
            let mut tags = subset(ctx, &labels_of(&p.m, true));
            let by_handle = ctx.chance(1, 3);
            let some: Vec<usize> = p.m.order.iter().cloned().filter(|_| by_handle && ctx.chance(1, 3)).collect();
            if by_handle {
                tags.clear();
            }
            let sel: Vec<usize> = p
                .m
                .order
                .iter()
                .cloned()
                .filter(|w| some.contains(w) || tags.contains(&p.m.nodes[*w].label))
                .collect();
            let hs: Vec<NodeIndex> = sel.iter().map(|w| p.h[*w].unwrap()).collect();
            let at = if ctx.chance(1, 2) {
                p.m.root
            } else {
                let v: Vec<usize> = p.m.live().into_iter().filter(|n| !p.m.nodes[*n].term).collect();
                if v.is_empty() {
                    p.m.root
                } else {
                    *ctx.pick(&v)
                }
            };
            let ha = p.h[at].unwrap();
            let t = &mut p.tree;
            ctx.note(|| format!("reattach {:?} to {:?}", hs, ha));
            sut_ok("reattach_terminals", || t.reattach_terminals(ha, |_, n| hs.contains(&n)))?;
            modelops::reattach(&mut p.m, at, &sel);
            "reattach_terminals"
        }
        2 => {
            let ins = subset(ctx, &nt_labels);
            let t = &mut p.tree;
            let r = sut_ok("insert_intermediate", || {
                es(t.insert_intermediate(|t, n| {
                    let l = t[n].label();
                    if ins.iter().any(|k| k == l) {
                        Some(format!("I{}", l))
                    } else {
                        None
                    }
                }))
            })?;
            ensure!(r.is_ok() != root_term, "refused", "insert_intermediate: {:?}", r);
            modelops::insert_intermediate(&mut p.m, |l| {
                if ins.iter().any(|k| k == l) {
                    Some(format!("I{}", l))
                } else {
                    None
                }
            });
            "insert_intermediate"
        }
        3 => {
            let t = &mut p.tree;
            let r = sut_ok("annotate_parent_tag", || es(t.annotate_parent_tag("ptag")))?;
            ensure!(r.is_ok() != root_term, "refused", "annotate_parent_tag: {:?}", r);
            modelops::parent_tag(&mut p.m, "ptag");
            "annotate_parent_tag"
        }
        4 => {
            let set = subset(ctx, &nt_labels);
            let t = &mut p.tree;
            sut_ok("project_tag_set", || t.project_tag_set("tags", |t, n| set.iter().any(|k| k == t[n].label())))?;
            for (w, a) in p.m.order.clone().iter().zip(modelops::nearest(&p.m, |_, l| set.iter().any(|k| k == l))) {
                if let Some(a) = a {
                    let l = p.m.nodes[a].label.clone();
                    p.m.nodes[*w].feats.insert("tags".into(), Some(l));
                }
            }
            "project_tag_set"
        }
        5 => {
            let set = subset(ctx, &nt_labels);
            let before = word_feats(p, "id");
            let t = &mut p.tree;
            sut_ok("project_ids", || t.project_ids("id", |t, n| set.iter().any(|k| k == t[n].label())))?;
            let near = modelops::nearest(&p.m, |_, l| set.iter().any(|k| k == l));
            let got = word_feats(p, "id");
            for i in 0..near.len() {
                match near[i] {
                    None => ensure!(
                        got[i] == before[i],
                        "content",
                        "project_ids: word {} without matching ancestor got {:?}",
                        i,
                        got[i]
                    ),
                    Some(a) => {
                        ensure!(
                            matches!(&got[i], Some(Some(x)) if !x.is_empty()),
                            "content",
                            "project_ids: word {} got no id",
                            i
                        );
                        for j in 0..i {
                            if let Some(b) = near[j] {
                                ensure!(
                                    (got[i] == got[j]) == (a == b),
                                    "content",
                                    "project_ids: words {} and {} got ids {:?} and {:?}",
                                    j,
                                    i,
                                    got[j],
                                    got[i]
                                );
                            }
                        }
                        let w = p.m.order[i];
                        p.m.nodes[w].feats.insert("id".into(), got[i].clone().unwrap());
                    }
                }
            }
            "project_ids"
        }
        6 => {
            let set = subset(ctx, &nt_labels);
            let t = &p.tree;
            let got = sut_ok("project_nt_indices", || {
                t.project_nt_indices(|t, n| set.iter().any(|k| k == t[n].label()))
            })?;
            let exp: Vec<NodeIndex> = modelops::nearest(&p.m, |_, l| set.iter().any(|k| k == l))
                .into_iter()
                .map(|a| p.h[a.unwrap_or(p.m.root)].unwrap())
                .collect();
            ensure!(got == exp, "content", "project_nt_indices: {:?} instead of {:?}", got, exp);
            "project_nt_indices"
        }
        7 => {
            let tags: Vec<String> = (0..p.m.n()).map(|i| format!("T{}", (i + kind) % 4)).collect();
            let t = &mut p.tree;
            let tg = tags.clone();
            let r = sut_ok("annotate_pos", || es(t.annotate_pos(tg)))?;
            ensure!(r.is_ok(), "refused", "annotate_pos: {:?}", r);
            for (w, l) in p.m.order.clone().iter().zip(tags) {
                p.m.nodes[*w].label = l;
            }
            "annotate_pos"
        }
        8 => {
            let delim = *ctx.pick(&["_", "~", "=="]);
            let plain = p.m.live().iter().all(|n| {
                !p.m.nodes[*n].label.chars().any(|c| delim.contains(c)) && !p.m.nodes[*n].feats.contains_key("unary_chain")
            });
            let skel = skeleton(&p.m.canon());
            let t = &mut p.tree;
            let r = sut_ok("collapse_unary_chains", || es(t.collapse_unary_chains(delim)))?;
            ensure!(r.is_ok(), "refused", "collapse_unary_chains: {:?}", r);
            modelops::collapse(&mut p.m, delim);
            p.check("after collapse_unary_chains", "content")?;
            if ctx.chance(1, 2) {
                let t = &mut p.tree;
                let r = sut_ok("restore_unary_chains", || es(t.restore_unary_chains(delim)))?;
                // a chain without a value cannot be restored
                let odd = p.m.live().iter().any(|n| matches!(p.m.nodes[*n].feats.get("unary_chain"), Some(None)));
                ensure!(r.is_ok() != odd, "refused", "restore_unary_chains: {:?}", r);
                if !odd {
                    modelops::restore(&mut p.m, delim);
                }
                p.check("after restore_unary_chains", "content")?;
                if plain {
                    ctx.probe("collapse_restore_roundtrip");
                    let again = skeleton(&p.m.canon());
                    ensure!(skel == again, "roundtrip", "restored {:?} instead of {:?}", again, skel);
                }
            }
            "collapse_unary_chains"
        }
        9 => {
            let delim = *ctx.pick(&["_", "~", "=="]);
            if p.m.live().iter().any(|n| matches!(p.m.nodes[*n].feats.get("unary_chain"), Some(None))) {
                return Ok("nothing");
            }
            let t = &mut p.tree;
            let r = sut_ok("restore_unary_chains", || es(t.restore_unary_chains(delim)))?;
            ensure!(r.is_ok(), "refused", "restore_unary_chains: {:?}", r);
            modelops::restore(&mut p.m, delim);
            "restore_unary_chains"
        }
        11 => {
            let t = &mut p.tree;
            let r = sut_ok("remove_dummy_nodes", || es(t.remove_dummy_nodes()))?;
            ensure!(r.is_ok(), "refused", "remove_dummy_nodes: {:?}", r);
            modelops::remove_dummies(&mut p.m);
            "remove_dummy_nodes"
        }
        _ => {
            let moves = do_projectivize(&mut p.tree)?;
            match check_projectivize(p, &moves, "after projectivize") {
                Ok(()) => {}
                Err(_) => return Ok("give up"),
            }
            "projectivize"
        }
    };
    p.check(&format!("after {}", what), "content")?;
    Ok(what)
}

pub fn t05(ctx: &Ctx) -> Res {
    let mut g = free_gen(ctx);
    g.dummies = ctx.chance(1, 10);
    g.root_term = ctx.chance(1, 5);
    if ctx.chance(1, 1200) {
        // a sentence with hundreds of nodes
        g.max_terms = 640;
        g.feats = false;
    }
    let m = g.tree(ctx);
    let Some(p) = any_pair(ctx, &m) else { return Ok(()) };
    let mut h = Hist::new(ctx, g, p, 0, false);
    let k = match ctx.weighted(&[50, 40, 10]) {
        0 => ctx.range(1, 3),
        1 => ctx.range(2, 8),
        _ => ctx.range(6, 25),
    };
    let mut bulk = 0;
    let most = 150 + h.p.m.live().len();
    for _ in 0..k {
        if ctx.chance(1, 4) {
            if h.step().is_err() {
                // single edits are another property
                return Ok(());
            }
            continue;
        }
        let words = h.p.m.canon().words().into_iter().map(|x| x.0).collect::<Vec<_>>();
        let what = bulk_op(ctx, &mut h.p)?;
        if what == "give up" {
            return Ok(());
        }
        ctx.event(what, h.p.m.n() as u64, h.p.m.live().len() as u64);
        ctx.note(|| format!("{}\n{}", what, h.p.m.canon().show()));
        let after = h.p.m.canon().words().into_iter().map(|x| x.0).collect::<Vec<_>>();
        ensure!(words == after, "content", "{} changed the words: {:?} {:?}", what, words, after);
        bulk += 1;
        if h.p.m.live().len() > most {
            break;
        }
    }
    if bulk > 0 && h.p.m.n() > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

// ---- T06 -------------------------------------------------------------------

fn check_eq(a: &Tree, b: &Tree, what: &str) -> Res<bool> {
    let (Ok(oa), Ok(ob)) = (observe(a), observe(b)) else {
        return Ok(false);
    };
    let exp = oa.canon.nodes == ob.canon.nodes;
    for (x, y, dir) in [(a, b, ""), (b, a, " (swapped)")] {
        let got = sut_ok("comparing trees", || x == y)?;
        ensure!(
            got == exp,
            if exp { "unequal" } else { "equal" },
            "{}{}: compares {}\n{}\n{}",
            what,
            dir,
            if got { "equal" } else { "unequal" },
            oa.canon.show(),
            ob.canon.show()
        );
        let ne = sut_ok("comparing trees", || x != y)?;
        ensure!(ne != got, "equal", "{}: == and != agree", what);
    }
    Ok(exp)
}

pub fn t06(ctx: &Ctx) -> Res {
    let mut g = free_gen(ctx);
    g.root_term = ctx.chance(1, 4);
    let m = g.tree(ctx);
    let Some(a) = any_pair(ctx, &m) else { return Ok(()) };
    let mut trees: Vec<(String, Pair)> = Vec::new();
    let am = a.m.clone();
    trees.push(("a".into(), a));
    // the same content by another history, under other hash keys
    for i in 0..ctx.range(1, 2) {
        let sub = ctx.draw(1 << 40);
        let m2 = am.clone();
        let r = std::thread::spawn(move || {
            seed_hash_keys(sub);
            let c = Ctx::new(Tape::random(sub), false, None);
            build(&c, &m2, BuildCfg { shuffle: true, scramble: sub % 2 == 0 })
        })
        .join();
        let Ok(Ok(p)) = r else { continue };
        ctx.fault("other_history");
        trees.push((format!("other history {}", i), p));
    }
    for i in 0..trees.len() {
        check_eq(&trees[i].1.tree, &trees[i].1.tree, "with itself")?;
        check_eq(&trees[0].1.tree, &trees[i].1.tree, "same content")?;
    }
    // copies, single changes, undo
    for _ in 0..ctx.range(1, 6) {
        let i = ctx.below(trees.len());
        let p = &mut trees[i].1;
        let copy = sut_ok("clone", || p.tree.clone())?;
        check_eq(&p.tree, &copy, "copy")?;
        let kind = ctx.below(13);
        ctx.event("change", kind as u64, i as u64);
        let live = p.m.live();
        let n = *ctx.pick(&live);
        let h = p.h[n].unwrap();
        let term = p.m.nodes[n].term;
        let t = &mut p.tree;
        let mut changed = true;
        let mut undo: Option<Box<dyn FnOnce(&mut Tree)>> = None;
        let r = sut(|| match kind {
            0 => {
                let old = t[h].set_label("changed label");
                undo = Some(Box::new(move |t| {
                    t[h].set_label(old);
                }));
            }
            1 if term => {
                let old = t[h].terminal_mut().unwrap().set_form("changed form");
                undo = Some(Box::new(move |t| {
                    t[h].terminal_mut().unwrap().set_form(old);
                }));
            }
            2 if term => {
                let w = t[h].terminal_mut().unwrap();
                let old = w.lemma().map(str::to_string);
                w.set_lemma(if old.is_some() && ctx.chance(1, 2) { None } else { Some("changed lemma") });
                undo = Some(Box::new(move |t| {
                    t[h].terminal_mut().unwrap().set_lemma(old);
                }));
            }
            3 => {
                let v = if ctx.chance(1, 2) { Some("v") } else { None };
                t[h].features_mut().insert("zz", v);
                undo = Some(Box::new(move |t| {
                    // leaves an empty map where there was none
                    t[h].features_mut().remove("zz");
                }));
            }
            4 => {
                if let Some((_, e)) = t.parent(h) {
                    let old = t[e].label().map(str::to_string);
                    let new = if old.is_some() && ctx.chance(1, 2) { None } else { Some("changed edge") };
                    t[e].set_label(new);
                    undo = Some(Box::new(move |t| {
                        t[e].set_label(old);
                    }));
                }
            }
            5 => {
                let x = t.insert_unary_above(h, "U");
                undo = Some(Box::new(move |t| {
                    let e = t.parent(h).and_then(|x| t[x.1].label().map(str::to_string));
                    t.remove_node(x).unwrap();
                    if let Some((_, i)) = t.parent(h) {
                        t[i].set_label(e);
                    }
                }));
                let _ = x;
            }
            6 => {
                // move a word there and back
                let i = t[h].terminal().map(|w| w.idx());
                if let Some(i) = i {
                    let j = ctx.below(t.n_terminals());
                    t.move_terminal(h, j);
                    undo = Some(Box::new(move |t| t.move_terminal(h, i)));
                }
            }
            7 => {
                // reattach there and back
                if let Some((par, e)) = t.parent(h) {
                    let nts: Vec<NodeIndex> = t.nonterminals().collect();
                    let to = *ctx.pick(&nts);
                    if let Ok((_, old)) = t.reattach_node(to, e) {
                        undo = Some(Box::new(move |t| {
                            let (_, e) = t.parent(h).unwrap();
                            let (ne, _) = t.reattach_node(par, e).unwrap();
                            t[ne] = old;
                        }));
                    }
                }
            }
            8 => {
                // an additional word, removed again
                let nts: Vec<NodeIndex> = t.nonterminals().collect();
                if !nts.is_empty() {
                    let par = *ctx.pick(&nts);
                    let i = ctx.below(t.n_terminals() + 1);
                    let x = t.insert_terminal(par, Terminal::new("x", "X", i));
                    undo = Some(Box::new(move |t| {
                        t.remove_node(x).unwrap();
                    }));
                }
            }
            9 => {
                let _ = t.collapse_unary_chains("_");
            }
            10 => {
                // an empty set of features is no difference
                t[h].features_mut();
                changed = false;
            }
            11 => {
                // secondary edges are not compared
                let nts: Vec<NodeIndex> = t.nonterminals().collect();
                if !nts.is_empty() {
                    t.add_secondary_edge(*ctx.pick(&nts), h, Some("s"));
                }
                changed = false;
            }
            12 => {
                // swap two words' contents
                let ws: Vec<NodeIndex> = t.terminals().collect();
                let (x, y) = (*ctx.pick(&ws), *ctx.pick(&ws));
                let a = t[x].terminal_mut().unwrap().set_form("");
                let b = t[y].terminal_mut().unwrap().set_form("");
                t[x].terminal_mut().unwrap().set_form(b);
                t[y].terminal_mut().unwrap().set_form(a);
            }
            _ => changed = false,
        });
        if r.is_err() {
            // what the edit does is another property
            return Ok(());
        }
        let _ = changed;
        check_eq(&p.tree, &copy, "after a change")?;
        if let Some(u) = undo {
            ctx.fault("change_and_undo");
            if sut(|| u(&mut p.tree)).is_err() {
                return Ok(());
            }
            check_eq(&p.tree, &copy, "after undoing a change")?;
        }
        // resynchronise
        let t = std::mem::replace(&mut p.tree, copy);
        match Pair::adopt(t, "changed tree") {
            Ok(q) => *p = q,
            Err(_) => return Ok(()),
        }
        let j = ctx.below(trees.len());
        check_eq(&trees[i].1.tree, &trees[j].1.tree, "two trees")?;
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: Edge, _: Node, _: NonTerminal) {}
