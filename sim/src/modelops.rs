//! Documented effect of the bulk transformations, on the model.

use crate::model::MTree;

/// Collapse unary chains into the feature `unary_chain` of their lowest node.
pub fn collapse(m: &mut MTree, delim: &str) {
    let pre = m.preorder();
    for n in pre.into_iter().rev() {
        if !m.nodes[n].alive {
            continue;
        }
        // n is the lowest node of a chain if it does not have exactly one child
        if !m.nodes[n].term && m.nodes[n].children.len() == 1 {
            continue;
        }
        let mut chain: Vec<String> = Vec::new();
        while let Some(p) = m.nodes[n].parent {
            if m.nodes[p].children.len() != 1 {
                break;
            }
            chain.push(m.nodes[p].label.clone());
            m.remove_nt(p);
        }
        if !chain.is_empty() {
            // chains collapsed earlier come first
            if let Some(Some(v)) = m.nodes[n].feats.get("unary_chain") {
                chain.insert(0, v.clone());
            }
            m.nodes[n]
                .feats
                .insert("unary_chain".into(), Some(chain.join(delim)));
        }
    }
}

pub fn restore(m: &mut MTree, delim: &str) {
    for n in m.live() {
        if let Some(v) = m.nodes[n].feats.remove("unary_chain") {
            let v = v.expect("chain value");
            let mut cur = n;
            let mut edges = Vec::new();
            for l in v.split(delim) {
                let new = m.unary_above(cur, l);
                edges.push(cur);
                edges.push(new);
                cur = new;
            }
            let old = m.nodes[n].edge.clone();
            for e in edges {
                // edge labels of collapsed chains are lost; where the label of
                // the remaining edge goes is not specified
                if m.nodes[e].parent.is_some() {
                    m.nodes[e].edge = old.clone();
                    m.nodes[e].loose = true;
                }
            }
        }
    }
}

/// Remove nonterminals (except for the root) that are not kept.
pub fn filter(m: &mut MTree, keep: impl Fn(&str) -> bool) {
    for n in m.nts() {
        if n != m.root && !keep(&m.nodes[n].label) {
            m.remove_nt(n);
        }
    }
}

pub fn remove_dummies(m: &mut MTree) {
    filter(m, |l| l != "DUMMY");
    let r = m.root;
    if !m.nodes[r].term && m.nodes[r].label == "DUMMY" && m.nodes[r].children.len() == 1 {
        m.remove_nt(r);
    }
}

/// Move the selected words to `at`; remove the nodes emptied by that.
pub fn reattach(m: &mut MTree, at: usize, sel: &[usize]) {
    for t in sel {
        let Some(p) = m.nodes[*t].parent else { continue };
        m.loosen(*t);
        if p == at {
            continue;
        }
        m.attach(at, *t);
        // remove emptied nodes
        let mut n = p;
        while n != at && m.nodes[n].children.is_empty() {
            let up = m.nodes[n].parent;
            m.detach(n);
            m.nodes[n].alive = false;
            m.sec.retain(|s| s.parent != n && s.child != n);
            match up {
                Some(u) => n = u,
                None => break,
            }
        }
    }
}

/// Insert nodes above maximal runs of adjacent words below the given parents.
pub fn insert_intermediate(m: &mut MTree, label_for: impl Fn(&str) -> Option<String>) -> bool {
    if m.nodes[m.root].term {
        return false;
    }
    let pos = m.positions();
    for p in m.nts() {
        let Some(label) = label_for(&m.nodes[p].label) else {
            continue;
        };
        let mut t: Vec<usize> = m.nodes[p]
            .children
            .iter()
            .cloned()
            .filter(|c| m.nodes[*c].term)
            .collect();
        t.sort_by_key(|x| pos[*x]);
        let mut i = 0;
        while i < t.len() {
            let mut j = i + 1;
            while j < t.len() && pos[t[j]] == pos[t[j - 1]] + 1 {
                j += 1;
            }
            let x = m.add_nt(&label);
            m.attach(p, x);
            for c in &t[i..j] {
                m.attach(x, *c);
                m.loosen(*c);
            }
            i = j;
        }
    }
    true
}

pub fn parent_tag(m: &mut MTree, feature: &str) -> bool {
    if m.nodes[m.root].term {
        return false;
    }
    for t in m.order.clone() {
        let p = m.nodes[t].parent.unwrap();
        let l = m.nodes[p].label.clone();
        m.nodes[t].feats.insert(feature.into(), Some(l));
    }
    true
}

/// Nearest ancestor of every word (in order) that satisfies the predicate.
pub fn nearest(m: &MTree, pred: impl Fn(usize, &str) -> bool) -> Vec<Option<usize>> {
    m.order
        .iter()
        .map(|t| {
            let mut n = *t;
            while let Some(p) = m.nodes[n].parent {
                if pred(p, &m.nodes[p].label) {
                    return Some(p);
                }
                n = p;
            }
            None
        })
        .collect()
}

pub struct Move {
    pub old_parent: usize,
    pub edge: Option<String>,
    pub child: usize,
}

/// Projectivize; children are visited in the given direction. Returns the
/// moves, or `None` for a continuous tree.
pub fn projectivize(m: &mut MTree, reverse: bool) -> Option<Vec<Move>> {
    if m.projective() {
        return None;
    }
    let covs = m.covs();
    // postorder
    let mut post = Vec::new();
    let mut stack = vec![(m.root, false)];
    while let Some((n, done)) = stack.pop() {
        if done {
            post.push(n);
            continue;
        }
        stack.push((n, true));
        let mut c = m.sorted_children(n, &covs);
        if !reverse {
            c.reverse();
        }
        for x in c {
            stack.push((x, false));
        }
    }
    let mut moves = Vec::new();
    for a in post {
        if m.nodes[a].term {
            continue;
        }
        loop {
            let covs = m.covs();
            let c = &covs[a];
            let Some(gap) = (c[0]..c[c.len() - 1]).find(|p| c.binary_search(p).is_err()) else {
                break;
            };
            let t = m.order[gap];
            // the highest constituent around t that does not contain a
            let mut h = t;
            while !m.is_anc_or_self(m.nodes[h].parent.unwrap(), a) {
                h = m.nodes[h].parent.unwrap();
            }
            moves.push(Move {
                old_parent: m.nodes[h].parent.unwrap(),
                edge: m.nodes[h].edge.clone(),
                child: h,
            });
            m.attach(a, h);
        }
    }
    Some(moves)
}
