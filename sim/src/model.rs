//! Independent reference model of a constituency tree.

use std::collections::BTreeMap;
use std::fmt::Write as _;

pub type Feats = BTreeMap<String, Option<String>>;

pub const ANNOT: &str = "node_annotation";

#[derive(Clone, Debug, PartialEq)]
pub struct MNode {
    pub term: bool,
    pub label: String,
    pub form: String,
    pub lemma: Option<String>,
    pub feats: Feats,
    pub edge: Option<String>,
    /// The edge label may also legitimately be absent.
    pub loose: bool,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub alive: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sec {
    pub id: u64,
    pub parent: usize,
    pub child: usize,
    pub label: Option<String>,
}

#[derive(Clone, Debug)]
pub struct MTree {
    pub nodes: Vec<MNode>,
    pub root: usize,
    /// Terminals in sentence order.
    pub order: Vec<usize>,
    pub sec: Vec<Sec>,
    pub next_sec: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct CNode {
    pub depth: usize,
    pub term: bool,
    pub label: String,
    pub form: String,
    pub lemma: Option<String>,
    pub feats: Feats,
    pub edge: Option<String>,
    pub cov: Vec<usize>,
}

/// Canonical form: nodes in preorder, children ordered by first position.
#[derive(Clone, Debug, PartialEq)]
pub struct Canon {
    pub nodes: Vec<CNode>,
    pub sec: Vec<(usize, usize, Option<String>)>,
}

pub fn esc(s: &str) -> String {
    if s.len() > 40 {
        let mut e = 18;
        while !s.is_char_boundary(e) {
            e += 1;
        }
        format!("{:?}..[{}]", &s[..e], s.len())
    } else {
        format!("{:?}", s)
    }
}

fn esc_opt(s: &Option<String>) -> String {
    match s {
        None => "-".into(),
        Some(s) => esc(s),
    }
}

impl CNode {
    pub fn show(&self) -> String {
        let mut o = String::new();
        for _ in 0..self.depth {
            o.push_str("  ");
        }
        let _ = write!(o, "{}", esc(&self.label));
        if self.term {
            let _ = write!(o, " form={}", esc(&self.form));
            if self.lemma.is_some() {
                let _ = write!(o, " lemma={}", esc_opt(&self.lemma));
            }
        }
        if self.edge.is_some() {
            let _ = write!(o, " edge={}", esc_opt(&self.edge));
        }
        for (k, v) in &self.feats {
            let _ = write!(o, " {}:{}", esc(k), esc_opt(v));
        }
        if self.cov.len() <= 24 {
            let _ = write!(o, " {:?}", self.cov);
        } else {
            let _ = write!(
                o,
                " [{}..{}; {}]",
                self.cov[0],
                self.cov[self.cov.len() - 1],
                self.cov.len()
            );
        }
        o
    }
}

impl Canon {
    pub fn show(&self) -> String {
        let mut o = String::new();
        for n in self.nodes.iter().take(60) {
            o.push_str(&n.show());
            o.push('\n');
        }
        if self.nodes.len() > 60 {
            let _ = writeln!(o, "... {} nodes", self.nodes.len());
        }
        for s in &self.sec {
            let _ = writeln!(o, "sec {} -> {} {}", s.0, s.1, esc_opt(&s.2));
        }
        o
    }

    pub fn words(&self) -> Vec<(String, String)> {
        let mut v: Vec<_> = self
            .nodes
            .iter()
            .filter(|n| n.term)
            .map(|n| (n.cov[0], n.form.clone(), n.label.clone()))
            .collect();
        v.sort();
        v.into_iter().map(|(_, f, p)| (f, p)).collect()
    }

    pub fn strip(&self, mut f: impl FnMut(&mut CNode)) -> Canon {
        let mut c = self.clone();
        for n in &mut c.nodes {
            f(n)
        }
        c
    }

    pub fn no_edges(&self) -> Canon {
        self.strip(|n| n.edge = None)
    }
}

/// First difference between an expected and an observed tree.
pub fn diff(exp: &Canon, loose: &[bool], got: &Canon) -> Option<String> {
    for i in 0..exp.nodes.len().max(got.nodes.len()) {
        match (exp.nodes.get(i), got.nodes.get(i)) {
            (Some(e), Some(g)) => {
                if e == g {
                    continue;
                }
                if loose.get(i).copied().unwrap_or(false) && g.edge.is_none() {
                    let mut e2 = e.clone();
                    e2.edge = None;
                    if &e2 == g {
                        continue;
                    }
                }
                return Some(format!(
                    "node {}: expected {} got {}",
                    i,
                    e.show().trim(),
                    g.show().trim()
                ) + &if e.depth != g.depth {
                    format!(" (depth {} vs {})", e.depth, g.depth)
                } else {
                    String::new()
                });
            }
            (Some(e), None) => {
                return Some(format!("node {} missing: {}", i, e.show().trim()));
            }
            (None, Some(g)) => {
                return Some(format!("unexpected node {}: {}", i, g.show().trim()));
            }
            (None, None) => {}
        }
    }
    if exp.sec != got.sec {
        return Some(format!(
            "secondary edges: expected {:?} got {:?}",
            exp.sec, got.sec
        ));
    }
    None
}

impl MTree {
    pub fn empty() -> MTree {
        MTree {
            nodes: Vec::new(),
            root: 0,
            order: Vec::new(),
            sec: Vec::new(),
            next_sec: 0,
        }
    }

    pub fn add_term(&mut self, form: &str, pos: &str) -> usize {
        let id = self.nodes.len();
        self.nodes.push(MNode {
            term: true,
            label: pos.to_string(),
            form: form.to_string(),
            lemma: None,
            feats: Feats::new(),
            edge: None,
            loose: false,
            parent: None,
            children: Vec::new(),
            alive: true,
        });
        id
    }

    pub fn add_nt(&mut self, label: &str) -> usize {
        let id = self.nodes.len();
        self.nodes.push(MNode {
            term: false,
            label: label.to_string(),
            form: String::new(),
            lemma: None,
            feats: Feats::new(),
            edge: None,
            loose: false,
            parent: None,
            children: Vec::new(),
            alive: true,
        });
        id
    }

    /// Attach `child` below `parent` (removing it from its old parent).
    pub fn attach(&mut self, parent: usize, child: usize) {
        self.detach(child);
        self.nodes[child].parent = Some(parent);
        self.nodes[parent].children.push(child);
    }

    pub fn detach(&mut self, child: usize) {
        if let Some(p) = self.nodes[child].parent.take() {
            self.nodes[p].children.retain(|c| *c != child);
        }
    }

    pub fn n(&self) -> usize {
        self.order.len()
    }

    pub fn pos(&self, t: usize) -> usize {
        self.order.iter().position(|x| *x == t).expect("terminal in order")
    }

    pub fn positions(&self) -> Vec<usize> {
        let mut p = vec![usize::MAX; self.nodes.len()];
        for (i, t) in self.order.iter().enumerate() {
            p[*t] = i;
        }
        p
    }

    pub fn live(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].alive).collect()
    }

    pub fn nts(&self) -> Vec<usize> {
        (0..self.nodes.len())
            .filter(|i| self.nodes[*i].alive && !self.nodes[*i].term)
            .collect()
    }

    fn cov_rec(&self, n: usize, pos: &[usize], out: &mut Vec<Vec<usize>>) {
        if self.nodes[n].term {
            out[n] = vec![pos[n]];
            return;
        }
        let mut v = Vec::new();
        for c in &self.nodes[n].children {
            self.cov_rec(*c, pos, out);
            v.extend_from_slice(&out[*c]);
        }
        v.sort_unstable();
        out[n] = v;
    }

    /// Coverage of every live node.
    pub fn covs(&self) -> Vec<Vec<usize>> {
        let pos = self.positions();
        let mut out = vec![Vec::new(); self.nodes.len()];
        self.cov_rec(self.root, &pos, &mut out);
        out
    }

    pub fn projective(&self) -> bool {
        self.covs()
            .iter()
            .all(|c| c.is_empty() || c[c.len() - 1] - c[0] + 1 == c.len())
    }

    pub fn is_anc_or_self(&self, anc: usize, mut n: usize) -> bool {
        loop {
            if n == anc {
                return true;
            }
            match self.nodes[n].parent {
                Some(p) => n = p,
                None => return false,
            }
        }
    }

    pub fn sorted_children(&self, n: usize, covs: &[Vec<usize>]) -> Vec<usize> {
        let mut c = self.nodes[n].children.clone();
        c.sort_by_key(|x| covs[*x].first().copied().unwrap_or(usize::MAX));
        c
    }

    pub fn preorder(&self) -> Vec<usize> {
        let covs = self.covs();
        let mut out = Vec::new();
        let mut stack = vec![self.root];
        while let Some(n) = stack.pop() {
            out.push(n);
            let mut c = self.sorted_children(n, &covs);
            c.reverse();
            stack.extend(c);
        }
        out
    }

    pub fn depth(&self, mut n: usize) -> usize {
        let mut d = 0;
        while let Some(p) = self.nodes[n].parent {
            n = p;
            d += 1;
        }
        d
    }

    /// Canonical form, the model node of every canonical node, loose flags.
    pub fn canon_full(&self) -> (Canon, Vec<usize>, Vec<bool>) {
        let covs = self.covs();
        let pre = self.preorder();
        let mut idx = vec![usize::MAX; self.nodes.len()];
        let mut depth = vec![0; self.nodes.len()];
        let mut nodes = Vec::with_capacity(pre.len());
        let mut loose = Vec::with_capacity(pre.len());
        for (i, n) in pre.iter().enumerate() {
            idx[*n] = i;
            let m = &self.nodes[*n];
            if let Some(p) = m.parent {
                depth[*n] = depth[p] + 1;
            }
            loose.push(m.loose);
            nodes.push(CNode {
                depth: depth[*n],
                term: m.term,
                label: m.label.clone(),
                form: m.form.clone(),
                lemma: m.lemma.clone(),
                feats: m.feats.clone(),
                edge: m.edge.clone(),
                cov: covs[*n].clone(),
            });
        }
        let mut sec: Vec<_> = self
            .sec
            .iter()
            .map(|s| (idx[s.parent], idx[s.child], s.label.clone()))
            .collect();
        sec.sort();
        (Canon { nodes, sec }, pre, loose)
    }

    pub fn canon(&self) -> Canon {
        self.canon_full().0
    }

    /// Take over edge labels of loosely specified edges from an observation
    /// that has been compared successfully.
    pub fn sync_loose(&mut self, pre: &[usize], got: &Canon) {
        for (i, n) in pre.iter().enumerate() {
            if self.nodes[*n].loose {
                self.nodes[*n].edge = got.nodes[i].edge.clone();
                self.nodes[*n].loose = false;
            }
        }
    }

    // ---- elementary operations ------------------------------------------

    pub fn loosen(&mut self, n: usize) {
        self.nodes[n].loose = true;
    }

    pub fn unary_above(&mut self, child: usize, label: &str) -> usize {
        let new = self.add_nt(label);
        let parent = self.nodes[child].parent;
        if let Some(p) = parent {
            self.attach(p, new);
        } else {
            self.root = new;
        }
        self.attach(new, child);
        new
    }

    pub fn unary_below(&mut self, node: usize, label: &str) -> usize {
        let new = self.add_nt(label);
        for c in self.nodes[node].children.clone() {
            self.attach(new, c);
            self.loosen(c);
        }
        self.attach(node, new);
        new
    }

    /// Remove a nonterminal; `false` if this is refused.
    pub fn remove_nt(&mut self, n: usize) -> bool {
        match self.nodes[n].parent {
            Some(p) => {
                for c in self.nodes[n].children.clone() {
                    self.attach(p, c);
                    self.loosen(c);
                }
                self.detach(n);
            }
            None => {
                if self.nodes[n].children.len() != 1 {
                    return false;
                }
                let c = self.nodes[n].children[0];
                self.detach(c);
                self.nodes[c].edge = None;
                self.nodes[c].loose = false;
                self.root = c;
            }
        }
        self.kill(n);
        true
    }

    pub fn remove_term(&mut self, t: usize) -> bool {
        match self.nodes[t].parent {
            Some(p) if self.nodes[p].children.len() > 1 => {
                self.detach(t);
                self.order.retain(|x| *x != t);
                self.kill(t);
                true
            }
            _ => false,
        }
    }

    fn kill(&mut self, n: usize) {
        self.nodes[n].alive = false;
        self.sec.retain(|s| s.parent != n && s.child != n);
    }

    pub fn add_sec(&mut self, parent: usize, child: usize, label: Option<String>) -> u64 {
        let id = self.next_sec;
        self.next_sec += 1;
        self.sec.push(Sec {
            id,
            parent,
            child,
            label,
        });
        id
    }

    /// Build a model from a canonical form.
    pub fn from_canon(c: &Canon) -> MTree {
        let mut m = MTree::empty();
        let mut path: Vec<usize> = Vec::new();
        let mut order = Vec::new();
        for n in &c.nodes {
            let id = if n.term {
                let t = m.add_term(&n.form, &n.label);
                order.push((n.cov[0], t));
                t
            } else {
                m.add_nt(&n.label)
            };
            m.nodes[id].lemma = n.lemma.clone();
            m.nodes[id].feats = n.feats.clone();
            m.nodes[id].edge = n.edge.clone();
            path.truncate(n.depth);
            if let Some(p) = path.last() {
                m.attach(*p, id);
            } else {
                m.root = id;
            }
            path.push(id);
        }
        order.sort();
        m.order = order.into_iter().map(|x| x.1).collect();
        for (p, ch, l) in &c.sec {
            m.add_sec(*p, *ch, l.clone());
        }
        m
    }
}
