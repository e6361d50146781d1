//! Observation of real trees: well-formedness and canonical form, using only
//! the public interface and none of the tree's own comparison code.

use lumberjack::{Edge, Node, Terminal, Tree};
use petgraph::prelude::{EdgeIndex, EdgeRef, NodeIndex};
use petgraph::visit::IntoEdgeReferences;
use petgraph::Direction;

use crate::ctx::{sut_ok, Ctx, Res};
use crate::ensure;
use crate::model::{diff, CNode, Canon, Feats, MTree};

pub struct Obs {
    pub canon: Canon,
    /// Node of every entry of the canonical form.
    pub nodes: Vec<NodeIndex>,
    /// Secondary edges in the order of `canon.sec`.
    pub sec: Vec<EdgeIndex>,
}

fn feats_of(n: &Node) -> Feats {
    n.features().map(|f| f.inner().clone()).unwrap_or_default()
}

/// Check well-formedness; return the canonical form.
pub fn observe(tree: &Tree) -> Result<Obs, String> {
    macro_rules! need {
        ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
    }
    let g = tree.graph();
    let root = tree.root();
    need!(g.contains_node(root), "root {:?} is not in the graph", root);
    let bound = g.node_indices().map(|n| n.index()).max().unwrap_or(0) + 1;
    let count = g.node_count();
    let mut children: Vec<Vec<NodeIndex>> = vec![Vec::new(); bound];
    let mut parent: Vec<Option<(NodeIndex, EdgeIndex)>> = vec![None; bound];
    let mut sec_edges = Vec::new();
    for e in g.edge_references() {
        match e.weight() {
            Edge::Primary(_) => {
                need!(
                    parent[e.target().index()].is_none(),
                    "node {:?} has more than one parent",
                    e.target()
                );
                parent[e.target().index()] = Some((e.source(), e.id()));
                children[e.source().index()].push(e.target());
            }
            Edge::Secondary(l) => sec_edges.push((e.source(), e.target(), l.clone(), e.id())),
        }
    }
    let mut n_term = 0;
    for n in g.node_indices() {
        if n == root {
            need!(parent[n.index()].is_none(), "the root has a parent");
        } else {
            need!(parent[n.index()].is_some(), "node {:?} ({}) has no parent", n, g[n]);
        }
        if g[n].is_terminal() {
            n_term += 1;
            need!(children[n.index()].is_empty(), "word {:?} has children", n);
        } else {
            need!(!children[n.index()].is_empty(), "node {:?} ({}) has no children", n, g[n]);
        }
    }
    need!(
        n_term == tree.n_terminals(),
        "n_terminals() is {}, the tree has {} words",
        tree.n_terminals(),
        n_term
    );
    // reachability (also excludes cycles)
    let mut seen = vec![false; bound];
    let mut stack = vec![root];
    let mut post = Vec::new();
    while let Some(n) = stack.pop() {
        need!(!seen[n.index()], "node {:?} visited twice", n);
        seen[n.index()] = true;
        post.push(n);
        stack.extend(children[n.index()].iter().cloned());
    }
    need!(post.len() == count, "{} of {} nodes hang below the root", post.len(), count);
    // positions and spans
    let mut cov: Vec<Vec<usize>> = vec![Vec::new(); bound];
    let mut taken = vec![false; n_term];
    let mut discont = 0;
    for n in post.iter().rev() {
        let node = &g[*n];
        let span = node.span();
        let expect = if let Some(t) = node.terminal() {
            let p = t.idx();
            need!(p < n_term, "word {:?} at position {} of {}", t.form(), p, n_term);
            need!(!taken[p], "two words at position {}", p);
            taken[p] = true;
            vec![p]
        } else {
            let mut v: Vec<usize> = Vec::new();
            for c in &children[n.index()] {
                v.extend_from_slice(&cov[c.index()]);
            }
            v.sort_unstable();
            v
        };
        let (s, e) = span.bounds();
        need!(
            e >= s && e - s <= 4 * n_term + 64,
            "span {:?} of node {:?} ({}) is out of range",
            (s, e),
            n,
            node
        );
        let mut got: Vec<usize> = span.into_iter().collect();
        got.sort_unstable();
        need!(
            got == expect,
            "span of node {:?} ({}) is {:?}, it dominates {:?}",
            n,
            node,
            got,
            expect
        );
        need!(
            s == expect[0] && e == expect[expect.len() - 1] + 1,
            "bounds of node {:?} ({}) are {:?}, it dominates {:?}",
            n,
            node,
            (s, e),
            expect
        );
        need!(
            span.n_indices() == expect.len(),
            "n_indices of node {:?} ({}) is {}, it dominates {:?}",
            n,
            node,
            span.n_indices(),
            expect
        );
        let gap = e - s != expect.len();
        let mut k = 0;
        for i in s.saturating_sub(1)..=e {
            let inside = k < expect.len() && expect[k] == i;
            k += inside as usize;
            need!(
                span.contains(i) == inside && span.skips().map_or(true, |v| v.contains(&i) == (i >= s && i < e && !inside)),
                "span of node {:?} ({}) dominating {:?} misreports {}",
                n,
                node,
                expect,
                i
            );
        }
        for c in &children[n.index()] {
            let sub = g[*c].span();
            need!(
                span.covers_span(sub) && sub.covers_span(span) == (cov[c.index()].len() == expect.len()),
                "covers_span of node {:?} ({}) and its child {:?} wrong",
                n,
                node,
                c
            );
        }
        need!(
            span.skips().map_or(0, |v| v.len()) == e - s - expect.len(),
            "node {:?} ({}) dominating {:?} has wrong skips",
            n,
            node,
            expect
        );
        need!(
            span.skips().is_some() == gap
                && (node.continuity() == lumberjack::Continuity::Discontinuous) == gap,
            "node {:?} ({}) dominating {:?} misreports its continuity",
            n,
            node,
            expect
        );
        if gap {
            discont += 1;
        }
        cov[n.index()] = expect;
    }
    need!(
        tree.is_projective() == (discont == 0),
        "is_projective() is {}, {} nodes are discontinuous",
        tree.is_projective(),
        discont
    );
    // the accessors agree with the graph
    let mut ts: Vec<_> = tree.terminals().collect();
    let mut ns: Vec<_> = tree.nonterminals().collect();
    need!(ts.len() == n_term && ns.len() == count - n_term, "terminals()/nonterminals() incomplete");
    ts.sort();
    ts.dedup();
    ns.sort();
    ns.dedup();
    need!(
        ts.len() == n_term
            && ns.len() == count - n_term
            && ts.iter().all(|t| tree[*t].is_terminal())
            && ns.iter().all(|t| !tree[*t].is_terminal()),
        "terminals()/nonterminals() wrong"
    );
    for n in &post {
        need!(tree.parent(*n) == parent[n.index()], "parent({:?}) wrong", n);
        let mut a: Vec<_> = tree.children(*n).collect();
        let mut b: Vec<_> = children[n.index()].iter().map(|c| (*c, parent[c.index()].unwrap().1)).collect();
        a.sort();
        b.sort();
        need!(a == b, "children({:?}) wrong", n);
        let mut a: Vec<_> = tree.secondary_children(*n).collect();
        let mut b: Vec<_> = sec_edges.iter().filter(|e| e.0 == *n).map(|e| (e.1, e.3)).collect();
        a.sort();
        b.sort();
        need!(a == b, "secondary_children({:?}) wrong", n);
        let up = tree.secondary_parent(*n);
        need!(
            match up {
                Some((p, i)) => sec_edges.iter().any(|e| e.0 == p && e.1 == *n && e.3 == i),
                None => !sec_edges.iter().any(|e| e.1 == *n),
            },
            "secondary_parent({:?}) wrong",
            n
        );
    }
    // canonical form
    let mut nodes = Vec::with_capacity(count);
    let mut idx = vec![usize::MAX; bound];
    let mut out = Vec::with_capacity(count);
    let mut stack = vec![(root, 0usize)];
    while let Some((n, d)) = stack.pop() {
        idx[n.index()] = nodes.len();
        nodes.push(n);
        let node = &g[n];
        out.push(CNode {
            depth: d,
            term: node.is_terminal(),
            label: node.label().to_string(),
            form: node.terminal().map(|t| t.form().to_string()).unwrap_or_default(),
            lemma: node.terminal().and_then(|t| t.lemma().map(str::to_string)),
            feats: feats_of(node),
            edge: parent[n.index()].and_then(|(_, e)| g[e].label().map(str::to_string)),
            cov: cov[n.index()].clone(),
        });
        let mut c = children[n.index()].clone();
        c.sort_by_key(|x| cov[x.index()][0]);
        for x in c.into_iter().rev() {
            stack.push((x, d + 1));
        }
    }
    let mut sec: Vec<_> = sec_edges
        .into_iter()
        .map(|(p, c, l, e)| ((idx[p.index()], idx[c.index()], l), e))
        .collect();
    sec.sort();
    Ok(Obs {
        canon: Canon {
            nodes: out,
            sec: sec.iter().map(|x| x.0.clone()).collect(),
        },
        nodes,
        sec: sec.into_iter().map(|x| x.1).collect(),
    })
}

pub fn observe_wf(tree: &Tree, what: &str) -> Res<Obs> {
    match sut_ok("inspecting a tree", || observe(tree))? {
        Ok(o) => Ok(o),
        Err(e) => crate::ctx::fail("malformed", format!("{}: {}", what, e)),
    }
}

/// Compare a real tree with the model; returns the observation and the model
/// node of every canonical node.
pub fn check_equal(tree: &Tree, m: &mut MTree, what: &str, class: &str) -> Res<(Obs, Vec<usize>)> {
    let obs = observe_wf(tree, what)?;
    let (exp, pre, loose) = m.canon_full();
    if let Some(d) = diff(&exp, &loose, &obs.canon) {
        return crate::ctx::fail(
            class,
            format!("{}: {}\nexpected:\n{}got:\n{}", what, d, exp.show(), obs.canon.show()),
        );
    }
    m.sync_loose(&pre, &obs.canon);
    Ok((obs, pre))
}

/// A real tree together with its model.
pub struct Pair {
    pub tree: Tree,
    pub m: MTree,
    /// Handle of every live model node.
    pub h: Vec<Option<NodeIndex>>,
    /// Handle of every secondary edge (by model id).
    pub sec: Vec<(u64, EdgeIndex)>,
}

impl Pair {
    /// Pair an observed tree with a fresh model of it.
    pub fn adopt(tree: Tree, what: &str) -> Res<Pair> {
        let obs = observe_wf(&tree, what)?;
        let m = MTree::from_canon(&obs.canon);
        let (_, pre, _) = m.canon_full();
        let mut h = vec![None; m.nodes.len()];
        for (i, n) in pre.iter().enumerate() {
            h[*n] = Some(obs.nodes[i]);
        }
        let mut sec: Vec<(u64, EdgeIndex)> = Vec::new();
        // model secondary edges are created in the order of canon.sec
        for (s, e) in m.sec.iter().zip(&obs.sec) {
            sec.push((s.id, *e));
        }
        Ok(Pair { tree, m, h, sec })
    }

    pub fn model_of(&self, n: NodeIndex) -> Option<usize> {
        self.h.iter().position(|x| *x == Some(n))
    }

    /// Compare tree and model; check that every handle still denotes the same
    /// node; learn the handles of new nodes.
    pub fn check(&mut self, what: &str, class: &str) -> Res<()> {
        let (obs, pre) = check_equal(&self.tree, &mut self.m, what, class)?;
        self.h.resize(self.m.nodes.len(), None);
        for (i, n) in pre.iter().enumerate() {
            match self.h[*n] {
                None => self.h[*n] = Some(obs.nodes[i]),
                Some(h) => ensure!(
                    h == obs.nodes[i],
                    "handle",
                    "{}: handle {:?} of node {} does not denote it any more (now {:?})",
                    what,
                    h,
                    obs.canon.nodes[i].show().trim(),
                    obs.nodes[i]
                ),
            }
        }
        for (i, n) in self.m.nodes.iter().enumerate() {
            if !n.alive {
                self.h[i] = None;
            }
        }
        self.sec.retain(|(id, _)| self.m.sec.iter().any(|s| s.id == *id));
        for (id, e) in &self.sec {
            let s = self.m.sec.iter().find(|s| s.id == *id).expect("kept");
            let ends = self.tree.graph().edge_endpoints(*e);
            ensure!(
                ends == Some((self.h[s.parent].unwrap(), self.h[s.child].unwrap()))
                    && !self.tree[*e].is_primary()
                    && self.tree[*e].label().map(str::to_string) == s.label,
                "handle",
                "{}: handle {:?} of a secondary edge does not denote it any more",
                what,
                e
            );
        }
        Ok(())
    }
}

/// How a tree is put together through the editing interface.
#[derive(Clone, Copy)]
pub struct BuildCfg {
    /// Insert words in random order (node order differs from sentence order).
    pub shuffle: bool,
    /// Also insert and remove additional words and nodes.
    pub scramble: bool,
}

/// Build the real tree of a model through the editing interface.
pub fn build(ctx: &Ctx, m: &MTree, cfg: BuildCfg) -> Res<Pair> {
    let mut p = Pair {
        tree: sut_ok("Tree::new", || {
            let t = m.order[0];
            Tree::new(m.nodes[t].form.as_str(), m.nodes[t].label.as_str())
        })?,
        m: m.clone(),
        h: vec![None; m.nodes.len()],
        sec: Vec::new(),
    };
    let n = m.order.len();
    let root = m.root;
    if m.nodes[root].term {
        p.h[root] = Some(p.tree.root());
    } else {
        // creation order of the words
        let mut perm: Vec<usize> = (0..n).collect();
        if cfg.shuffle && ctx.chance(2, 3) {
            for i in (1..n).rev() {
                let j = i - ctx.below(i + 1);
                perm.swap(i, j);
            }
        }
        if perm[0] != 0 {
            let t = m.order[perm[0]];
            p.tree = sut_ok("Tree::new", || {
                Tree::new(m.nodes[t].form.as_str(), m.nodes[t].label.as_str())
            })?;
        }
        p.h[m.order[perm[0]]] = Some(p.tree.root());
        let leaf = p.tree.root();
        let r = sut_ok("insert_unary_above", || {
            p.tree.insert_unary_above(leaf, m.nodes[root].label.as_str())
        })?;
        p.h[root] = Some(r);
        let mut present = vec![perm[0]];
        let mut junk = Vec::new();
        for &k in &perm[1..] {
            let t = m.order[k];
            if cfg.scramble && ctx.chance(1, 8) {
                let at = ctx.below(present.len() + 1);
                let j = sut_ok("insert_terminal", || {
                    p.tree.insert_terminal(r, Terminal::new("junk", "J", at))
                })?;
                if ctx.chance(1, 2) {
                    sut_ok("remove_node", || p.tree.remove_node(j).map(|_| ()))?
                        .or_else(|e| crate::ctx::fail("construct", format!("remove_node: {}", e)))?;
                } else {
                    // replace right away so that ranks stay simple
                    let w = sut_ok("insert_unary_above", || p.tree.insert_unary_above(j, "JUNK"))?;
                    junk.push(w);
                    sut_ok("remove_node", || p.tree.remove_node(w).map(|_| ()))?
                        .or_else(|e| crate::ctx::fail("construct", format!("remove_node: {}", e)))?;
                    sut_ok("remove_node", || p.tree.remove_node(j).map(|_| ()))?
                        .or_else(|e| crate::ctx::fail("construct", format!("remove_node: {}", e)))?;
                }
            }
            let rank = present.iter().filter(|x| **x < k).count();
            let h = if rank == present.len() && ctx.chance(1, 2) {
                sut_ok("push_terminal", || {
                    p.tree.push_terminal(m.nodes[t].form.as_str(), m.nodes[t].label.as_str())
                })?
                .or_else(|e| crate::ctx::fail("construct", format!("push_terminal: {}", e)))?
            } else {
                sut_ok("insert_terminal", || {
                    p.tree.insert_terminal(
                        r,
                        Terminal::new(m.nodes[t].form.as_str(), m.nodes[t].label.as_str(), rank),
                    )
                })?
            };
            p.h[t] = Some(h);
            present.push(k);
        }
        // nonterminals bottom-up
        let mut todo: Vec<usize> = m.preorder().into_iter().filter(|x| !m.nodes[*x].term && *x != root).collect();
        todo.reverse();
        if cfg.shuffle && ctx.chance(1, 2) {
            // any order in which children precede parents
            let mut open = vec![0usize; m.nodes.len()];
            for x in &todo {
                open[*x] = m.nodes[*x].children.iter().filter(|c| !m.nodes[**c].term).count();
            }
            let mut ready: Vec<usize> = todo.iter().cloned().filter(|x| open[*x] == 0).collect();
            let mut out = Vec::new();
            while !ready.is_empty() {
                let k = ctx.below(ready.len());
                let x = ready.swap_remove(k);
                out.push(x);
                if let Some(p) = m.nodes[x].parent.filter(|p| *p != root) {
                    open[p] -= 1;
                    if open[p] == 0 {
                        ready.push(p);
                    }
                }
            }
            todo = out;
        }
        for x in todo {
            let mut ch = m.nodes[x].children.clone();
            if cfg.shuffle && ch.len() > 1 {
                let k = ctx.below(ch.len());
                ch.rotate_left(k);
            }
            let first = p.h[ch[0]].unwrap();
            let new = sut_ok("insert_unary_above", || {
                p.tree.insert_unary_above(first, m.nodes[x].label.as_str())
            })?;
            p.h[x] = Some(new);
            for c in &ch[1..] {
                let c = p.h[*c].unwrap();
                let r = sut_ok("reattach_node", || {
                    let (_, e) = p.tree.parent(c).expect("parent");
                    p.tree.reattach_node(new, e).map(|_| ())
                })?;
                if let Err(e) = r {
                    return crate::ctx::fail("construct", format!("reattach_node refused: {}", e));
                }
            }
        }
    }
    // features that are present but empty
    let touch = ctx.chance(1, 5);
    for x in m.live() {
        let h = p.h[x].unwrap();
        let mn = &m.nodes[x];
        let touch = touch && ctx.chance(1, 2);
        let r = sut_ok("setting node content", || {
            if touch {
                p.tree[h].features_mut();
            }
            if let Some(l) = &mn.lemma {
                p.tree[h].terminal_mut().unwrap().set_lemma(Some(l.as_str()));
            }
            for (k, v) in &mn.feats {
                p.tree[h].features_mut().insert(k.as_str(), v.as_deref());
            }
            if let Some((_, e)) = p.tree.parent(h) {
                p.tree[e].set_label(mn.edge.as_deref());
            }
        });
        r?;
    }
    for s in &m.sec {
        let (a, b) = (p.h[s.parent].unwrap(), p.h[s.child].unwrap());
        let e = sut_ok("add_secondary_edge", || {
            p.tree.add_secondary_edge(a, b, s.label.as_deref())
        })?;
        p.sec.push((s.id, e));
    }
    p.check("constructed tree", "construct")?;
    Ok(p)
}

/// The primary incoming edge of a node.
pub fn in_edge(t: &Tree, n: NodeIndex) -> Option<EdgeIndex> {
    t.graph()
        .edges_directed(n, Direction::Incoming)
        .find(|e| e.weight().is_primary())
        .map(|e| e.id())
}
