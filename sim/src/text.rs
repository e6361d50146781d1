//! Independent emitters and parsers for the stored formats.

use crate::ctx::Ctx;
use crate::gen::{Fmt, Gen};
use crate::model::{Canon, MTree, ANNOT};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    Negra,
    /// One tree per line.
    Single(Fmt),
    Multi(Fmt),
    /// CoNLL-X with absolute (true) or relative (false) tags.
    Tags(bool),
}

impl Layout {
    pub fn name(self) -> String {
        match self {
            Layout::Negra => "negra".into(),
            Layout::Single(f) => format!("{}/single", f.name()),
            Layout::Multi(f) => format!("{}/multi", f.name()),
            Layout::Tags(true) => "conllx/absolute".into(),
            Layout::Tags(false) => "conllx/relative".into(),
        }
    }
    pub fn fmt(self) -> Fmt {
        match self {
            Layout::Negra => Fmt::Negra,
            Layout::Single(f) | Layout::Multi(f) => f,
            Layout::Tags(_) => Fmt::Tags,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LineTag {
    /// Belongs to the tree with this index; not its last line.
    Tree(usize),
    /// Completes the tree with this index.
    Last(usize),
    /// Comments, blank lines, tables between trees.
    Other,
}

#[derive(Clone)]
pub struct Line {
    pub text: Vec<u8>,
    pub tag: LineTag,
}

pub struct Item {
    /// Offset of the first byte of the tree's text.
    pub start: usize,
    /// Offset behind the last byte of its text (before the line terminator).
    pub text_end: usize,
    /// Offset behind the line terminator of its last line.
    pub done: usize,
    pub canon: Canon,
    pub model: MTree,
}

pub struct Doc {
    pub layout: Layout,
    pub lines: Vec<Line>,
    pub eol: &'static [u8],
    pub last_eol: bool,
    pub bytes: Vec<u8>,
    pub items: Vec<Item>,
}

pub fn join_lines(lines: &[Line], eol: &[u8], last_eol: bool) -> Vec<u8> {
    let mut b = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        b.extend_from_slice(&l.text);
        if last_eol || i + 1 < lines.len() {
            b.extend_from_slice(eol);
        }
    }
    b
}

/// What a reader of the layout must yield for a model.
pub fn as_read(m: &MTree, fmt: Fmt, sid: Option<&str>) -> Canon {
    let c = m.canon();
    let root_depth = 0;
    let clean = |s: &str| s.replace('(', "LBR").replace(')', "RBR");
    let mut out = c.strip(|n| {
        let is_root = n.depth == root_depth;
        let annot = n.feats.get(ANNOT).cloned().flatten();
        let morph = n.feats.get("morph").cloned().flatten();
        match fmt {
            Fmt::Negra => {
                if is_root {
                    n.label = "VROOT".into();
                    n.edge = None;
                    let meta = n.feats.get("metadata").cloned().flatten();
                    let own = n.feats.get("sentence_id").cloned().flatten();
                    n.feats.clear();
                    let id = own.or_else(|| sid.map(str::to_string));
                    if let Some(id) = id {
                        n.feats.insert("sentence_id".into(), Some(id));
                    }
                    if let Some(x) = meta {
                        n.feats.insert("metadata".into(), Some(x));
                    }
                } else if n.term {
                    n.feats.clear();
                    if let Some(x) = morph {
                        n.feats.insert("morph".into(), Some(x));
                    }
                } else {
                    n.feats.clear();
                    if let Some(x) = annot {
                        n.feats.insert(ANNOT.into(), Some(x));
                    }
                }
            }
            Fmt::Simple | Fmt::Ptb | Fmt::TueBa => {
                n.lemma = None;
                if n.term {
                    n.form = clean(&n.form);
                    n.label = clean(&n.label);
                }
                n.feats.clear();
                if fmt != Fmt::Simple && !n.term {
                    if let Some(x) = annot {
                        n.feats.insert(ANNOT.into(), Some(x));
                    }
                }
                if fmt != Fmt::TueBa || is_root {
                    n.edge = None;
                }
            }
            Fmt::Tags => {
                n.lemma = None;
                n.feats.clear();
                n.edge = None;
            }
            _ => unreachable!("no stored format"),
        }
    });
    if fmt != Fmt::Negra {
        out.sec.clear();
    }
    out
}

/// Can the format carry the strings and secondary edges of a tree? (Shape and
/// continuity are other questions.)
pub fn expressible(m: &MTree, fmt: Fmt) -> bool {
    let field = |s: &str| !s.is_empty() && !s.chars().any(char::is_whitespace);
    let piece = |s: &str| !s.is_empty() && !s.contains(&[' ', '\n', '\r', '(', ')'][..]);
    let column = |s: &str| !s.contains(&['\t', '\n'][..]);
    let val = |n: usize, k: &str| m.nodes[n].feats.get(k).cloned().flatten();
    for n in m.live() {
        let x = &m.nodes[n];
        let edge = x.edge.as_deref().filter(|_| x.parent.is_some());
        let ok = match fmt {
            Fmt::Negra => {
                n == m.root
                    || edge.map_or(true, field)
                        && if x.term {
                            field(&x.form)
                                && !x.form.starts_with('#')
                                && field(&x.label)
                                && x.lemma.as_deref().map_or(true, field)
                                && val(n, "morph").map_or(true, |v| field(&v))
                        } else {
                            match val(n, ANNOT) {
                                Some(a) => field(&format!("{}={}", x.label, a)),
                                None => field(&x.label),
                            }
                        }
            }
            Fmt::Tags => {
                !x.term
                    || column(&x.form)
                        && column(&x.label)
                        && x.lemma.as_deref().map_or(true, column)
                        && x.feats.iter().all(|(k, v)| column(k) && v.as_deref().map_or(true, column))
            }
            _ => {
                // round brackets of words and their tags are spelled out
                let spelled = |s: &str| s.replace('(', "LBR").replace(')', "RBR");
                let mut l = if x.term { spelled(&x.label) } else { x.label.clone() };
                if let (false, Some(a)) = (x.term, val(n, ANNOT)) {
                    match fmt {
                        Fmt::Ptb => l = format!("{}-{}", l, a),
                        Fmt::TueBa => l = format!("{}={}", l, a),
                        _ => {}
                    }
                }
                if fmt == Fmt::TueBa {
                    l = format!("{}:{}", l, edge.unwrap_or("--"));
                }
                piece(&l) && (!x.term || piece(&spelled(&x.form)))
            }
        };
        if !ok {
            return false;
        }
    }
    if fmt == Fmt::Negra {
        let id = |s: String| s.parse::<usize>().map(|n| n.to_string() == s).unwrap_or(false);
        return val(m.root, "sentence_id").map_or(true, id)
            && !val(m.root, "metadata").map_or(false, |s| s.contains('\n'))
            && m.sec.iter().all(|s| {
                s.child != m.root
                    && !m.nodes[s.parent].term
                    && s.label.as_deref().map_or(true, |l| field(l) && !l.starts_with('%'))
            });
    }
    true
}

// ---- NEGRA -----------------------------------------------------------------

pub struct NegraStyle {
    pub tabs: bool,
    pub pad: bool,
    pub comments: bool,
    pub ids: usize,
}

/// Free text behind the id of a NEGRA sentence.
pub fn metadata(ctx: &Ctx) -> String {
    if ctx.chance(1, 2) {
        return ctx.pick(&["2 1098266456 1 0", "x", "%% Kommentar: äöü", "a  b", "#EOS 1"]).to_string();
    }
    let mut s = String::new();
    for i in 0..ctx.range(1, 5) {
        if i > 0 {
            s.push_str(ctx.pick(&[" ", "  ", " \t"]));
        }
        s.push_str(ctx.pick(&["0", "1098266456", "%%", "%", "#", "#500", "--", "x=y", "(", "a:b|c", "äöü", "\"", "#BOS", "1"]));
    }
    s
}

pub fn emit_negra(ctx: &Ctx, m: &MTree, sid: &str, meta: Option<&str>, st: &NegraStyle) -> Vec<String> {
    let sep = |w: usize, len: usize| -> String {
        if st.tabs {
            "\t".repeat(if len < 8 { 2 } else { 1 })
        } else if st.pad && len < w {
            " ".repeat(w - len)
        } else {
            " ".to_string()
        }
    };
    let mut id = vec![0usize; m.nodes.len()];
    let mut nts: Vec<usize> = m.preorder().into_iter().filter(|x| !m.nodes[*x].term && *x != m.root).collect();
    nts.reverse();
    if ctx.chance(1, 4) {
        // any order with children before their parents
        let mut rest = std::mem::take(&mut nts);
        while !rest.is_empty() {
            let ready: Vec<usize> = (0..rest.len())
                .filter(|i| m.nodes[rest[*i]].children.iter().all(|c| !rest.contains(c)))
                .collect();
            let i = *ctx.pick(&ready);
            nts.push(rest.remove(i));
        }
    }
    let mut next = 500;
    for x in &nts {
        match st.ids {
            0 => {
                id[*x] = next;
                next += 1;
            }
            1 => {
                id[*x] = next;
                next += ctx.range(1, 7);
            }
            2 => {
                id[*x] = 1 + next * 3;
                next += 1;
            }
            // numbers that only differ in their higher digits
            _ => {
                id[*x] = next;
                next += *ctx.pick(&[1 << 16, 1, 1 << 8, 1 << 32, 1000, 100_000]);
            }
        }
    }
    let mut out = Vec::new();
    let bos = if st.tabs { "#BOS\t" } else { "#BOS " };
    out.push(match meta {
        Some(x) => format!("{}{}{}{}", bos, sid, if st.pad { "  " } else { " " }, x),
        None => format!("{}{}", bos, sid),
    });
    let tail = |ctx: &Ctx, n: usize, s: &mut String| {
        let node = &m.nodes[n];
        let e = node.edge.as_deref().unwrap_or("--");
        s.push_str(e);
        s.push_str(&sep(8, e.len()));
        let p = id[node.parent.expect("non-root")].to_string();
        s.push_str(&p);
        let mut last = p.len();
        for x in m.sec.iter().filter(|x| x.child == n) {
            s.push_str(&sep(8, last));
            let l = x.label.as_deref().unwrap_or("--");
            s.push_str(l);
            s.push_str(&sep(8, l.len()));
            let p = id[x.parent].to_string();
            s.push_str(&p);
            last = p.len();
        }
        if st.comments && ctx.chance(1, 4) {
            s.push_str(" %% ");
            s.push_str(*ctx.pick(&["R=16", "unsicher", "foo 3 bar 4"]));
        }
    };
    for t in &m.order {
        let n = &m.nodes[*t];
        let mut s = String::new();
        for (f, w) in [
            (n.form.as_str(), 24),
            (n.lemma.as_deref().unwrap_or("--"), 24),
            (n.label.as_str(), 8),
            (n.feats.get("morph").and_then(|x| x.as_deref()).unwrap_or("--"), 16),
        ] {
            s.push_str(f);
            s.push_str(&sep(w, f.len()));
        }
        tail(ctx, *t, &mut s);
        out.push(s);
    }
    for x in &nts {
        let n = &m.nodes[*x];
        let mut s = format!("#{}", id[*x]);
        let l = s.len();
        s.push_str(&sep(24, l));
        s.push_str("--");
        s.push_str(&sep(24, 2));
        let mut l = n.label.clone();
        if let Some(Some(a)) = n.feats.get(ANNOT) {
            l.push('=');
            l.push_str(a);
        }
        s.push_str(&l);
        s.push_str(&sep(8, l.len()));
        s.push_str("--");
        s.push_str(&sep(16, 2));
        tail(ctx, *x, &mut s);
        out.push(s);
    }
    out.push(match (st.tabs, st.pad) {
        (true, false) => format!("#EOS\t{}", sid),
        (false, true) => format!("#EOS  {}", sid),
        _ => format!("#EOS {}", sid),
    });
    out
}

/// Strict parser of NEGRA text, used to judge what the writer produced.
pub fn parse_negra(text: &str) -> Result<Vec<MTree>, String> {
    let mut out = Vec::new();
    let mut cur: Option<(MTree, String, Vec<(usize, usize)>, Vec<(usize, String, usize)>, Vec<(usize, usize)>)> = None;
    for line in text.split('\n') {
        let f: Vec<&str> = line.split_whitespace().collect();
        if line.starts_with("#BOS") {
            if cur.is_some() {
                return Err("nested #BOS".into());
            }
            let id = f.get(1).ok_or("no sentence id")?.to_string();
            let mut m = MTree::empty();
            let r = m.add_nt("VROOT");
            m.root = r;
            m.nodes[r].feats.insert("sentence_id".into(), Some(id.clone()));
            let rest = line[4..].trim_start();
            let rest = rest[id.len()..].trim();
            if !rest.is_empty() {
                m.nodes[r].feats.insert("metadata".into(), Some(rest.to_string()));
            }
            cur = Some((m, id, Vec::new(), Vec::new(), vec![(0, r)]));
        } else if line.starts_with("#EOS") {
            let (mut m, id, prim, sec, ids) = cur.take().ok_or("#EOS without #BOS")?;
            if f.get(1) != Some(&id.as_str()) {
                return Err("ids differ".into());
            }
            let find = |x: usize| ids.iter().find(|y| y.0 == x).map(|y| y.1);
            for (c, p) in prim {
                let p = find(p).ok_or(format!("parent {} unknown", p))?;
                if m.nodes[p].term {
                    return Err("parent is a word".into());
                }
                m.attach(p, c);
            }
            for (c, l, p) in sec {
                let p = find(p).ok_or(format!("secondary parent {} unknown", p))?;
                m.add_sec(p, c, if l == "--" { None } else { Some(l) });
            }
            for x in 0..m.nodes.len() {
                let mut a = x;
                let mut k = 0;
                while let Some(p) = m.nodes[a].parent {
                    a = p;
                    k += 1;
                    if k > m.nodes.len() {
                        return Err("cycle".into());
                    }
                }
                if a != m.root {
                    return Err("unconnected node".into());
                }
                if !m.nodes[x].term && m.nodes[x].children.is_empty() {
                    return Err("empty nonterminal".into());
                }
            }
            out.push(m);
        } else if let Some((m, _, prim, sec, ids)) = cur.as_mut() {
            if f.len() < 6 {
                return Err(format!("short line {:?}", line));
            }
            let x;
            if let Some(id) = f[0].strip_prefix('#') {
                let id: usize = id.parse().map_err(|e| format!("{}: {}", f[0], e))?;
                let (l, a) = match f[2].split_once('=') {
                    Some((l, a)) => (l, Some(a)),
                    None => (f[2], None),
                };
                x = m.add_nt(l);
                if let Some(a) = a {
                    m.nodes[x].feats.insert(ANNOT.into(), Some(a.to_string()));
                }
                if ids.iter().any(|y| y.0 == id) {
                    return Err("duplicate id".into());
                }
                // (0 is the root, smaller numbers denote words)
                if id < 500 {
                    return Err(format!("nonterminal with number {}", id));
                }
                if f[1] != "--" || f[3] != "--" {
                    return Err(format!("nonterminal with lemma or morphology {:?}", line));
                }
                ids.push((id, x));
            } else {
                x = m.add_term(f[0], f[2]);
                if f[1] != "--" {
                    m.nodes[x].lemma = Some(f[1].into());
                }
                if f[3] != "--" {
                    m.nodes[x].feats.insert("morph".into(), Some(f[3].into()));
                }
                m.order.push(x);
            }
            if f[4] != "--" {
                m.nodes[x].edge = Some(f[4].into());
            }
            prim.push((x, f[5].parse().map_err(|e| format!("{}: {}", f[5], e))?));
            for e in f[6..].chunks(2) {
                if e.len() < 2 {
                    return Err(format!("short secondary edge {:?}", line));
                }
                sec.push((x, e[0].to_string(), e[1].parse().map_err(|x| format!("{}: {}", e[1], x))?));
            }
        } else if !f.is_empty() {
            return Err(format!("text outside of a sentence: {:?}", line));
        }
    }
    if cur.is_some() {
        return Err("unfinished sentence".into());
    }
    Ok(out)
}

/// What the lines from `#BOS` to `#EOS` of a possibly damaged sentence say, and
/// whether a label has separators in places without a meaning.
pub fn parse_sentence(lines: &[&str]) -> Result<(MTree, bool), String> {
    let ws = |c: char| c.is_whitespace();
    let head = lines[0].trim();
    let rest = head[head.find(ws).ok_or("no sentence id")?..].trim_start();
    let (id, meta) = match rest.find(ws) {
        Some(i) => (&rest[..i], rest[i..].trim()),
        None => (rest, ""),
    };
    let id = id.parse::<usize>().map_err(|e| e.to_string())?.to_string();
    let foot = lines[lines.len() - 1].trim();
    if foot.split_whitespace().nth(1) != Some(&id) {
        return Err("ids differ".into());
    }
    let mut m = MTree::empty();
    let r = m.add_nt("VROOT");
    m.root = r;
    m.nodes[r].feats.insert("sentence_id".into(), Some(id));
    if !meta.is_empty() {
        m.nodes[r].feats.insert("metadata".into(), Some(meta.into()));
    }
    let mut ids = vec![(0usize, r)];
    let mut prim = Vec::new();
    let mut sec = Vec::new();
    let mut odd = false;
    let num = |s: &str| s.parse::<usize>().map_err(|e| e.to_string());
    for line in &lines[1..lines.len() - 1] {
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.len() < 6 {
            return Err("short line".into());
        }
        let x;
        if let Some(id) = f[0].strip_prefix('#') {
            let id = num(id)?;
            if ids.iter().any(|y| y.0 == id) {
                return Err("duplicate id".into());
            }
            odd |= f[2].ends_with('=') || f[2].starts_with('=');
            let (l, a) = match f[2].split_once('=') {
                Some((l, a)) => (l, Some(a)),
                None => (f[2], None),
            };
            x = m.add_nt(l);
            if let Some(a) = a {
                m.nodes[x].feats.insert(ANNOT.into(), Some(a.into()));
            }
            ids.push((id, x));
        } else {
            if ids.len() > 1 {
                return Err("word behind nodes".into());
            }
            x = m.add_term(f[0], f[2]);
            if f[1] != "--" {
                m.nodes[x].lemma = Some(f[1].into());
            }
            if f[3] != "--" {
                m.nodes[x].feats.insert("morph".into(), Some(f[3].into()));
            }
            m.order.push(x);
        }
        if f[4] != "--" {
            m.nodes[x].edge = Some(f[4].into());
        }
        prim.push((x, num(f[5])?));
        for e in f[6..].chunks(2) {
            if e[0].starts_with('%') {
                break;
            }
            sec.push((x, e[0], num(e.get(1).ok_or("short secondary edge")?)?));
        }
    }
    let find = |x: usize| ids.iter().find(|y| y.0 == x).map(|y| y.1).ok_or(format!("parent {} unknown", x));
    for (c, p) in prim {
        let p = find(p)?;
        m.attach(p, c);
    }
    for (c, l, p) in sec {
        m.add_sec(find(p)?, c, if l == "--" { None } else { Some(l.to_string()) });
    }
    for x in 0..m.nodes.len() {
        let (mut a, mut k) = (x, 0);
        while let Some(p) = m.nodes[a].parent {
            a = p;
            k += 1;
            if k > m.nodes.len() {
                return Err("cycle".into());
            }
        }
        if a != m.root {
            return Err("unconnected node".into());
        }
        if !m.nodes[x].term && m.nodes[x].children.is_empty() {
            return Err("empty nonterminal".into());
        }
    }
    Ok((m, odd))
}

// ---- brackets --------------------------------------------------------------

fn bracket_label(m: &MTree, n: usize, fmt: Fmt, edge_dashes: bool) -> String {
    let x = &m.nodes[n];
    let mut s = x.label.clone();
    let a = if x.term { None } else { x.feats.get(ANNOT).cloned().flatten() };
    match fmt {
        Fmt::Ptb => {
            if let Some(a) = a {
                s.push('-');
                s.push_str(&a);
            }
        }
        Fmt::TueBa => {
            if let Some(a) = a {
                s.push('=');
                s.push_str(&a);
            }
            match &x.edge {
                Some(e) if n != m.root => {
                    s.push(':');
                    s.push_str(e);
                }
                _ => {
                    if edge_dashes {
                        s.push_str(":--");
                    }
                }
            }
        }
        _ => {}
    }
    s
}

/// Tokens of a tree; `true` marks places where white space is required.
fn bracket_tokens(m: &MTree, n: usize, fmt: Fmt, covs: &[Vec<usize>], dashes: bool, out: &mut Vec<String>) {
    out.push("(".into());
    out.push(bracket_label(m, n, fmt, dashes));
    if m.nodes[n].term {
        out.push(m.nodes[n].form.clone());
    } else {
        for c in m.sorted_children(n, covs) {
            bracket_tokens(m, c, fmt, covs, dashes, out);
        }
    }
    out.push(")".into());
}

pub fn emit_bracket(ctx: &Ctx, m: &MTree, fmt: Fmt, multi: bool) -> Vec<String> {
    let covs = m.covs();
    let mut toks = Vec::new();
    bracket_tokens(m, m.root, fmt, &covs, !ctx.chance(1, 3), &mut toks);
    let wide = ctx.chance(1, 3);
    let breaks = if multi { *ctx.pick(&[0u64, 1, 3, 6]) } else { 0 };
    let mut lines = vec![String::new()];
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let prev = &toks[i - 1];
            let required = prev != "(" && prev != ")" && t != "(" && t != ")";
            if breaks > 0 && ctx.chance(breaks, 10) {
                if ctx.chance(1, 6) {
                    lines.last_mut().unwrap().push(' ');
                }
                lines.push(String::new());
                if ctx.chance(1, 10) {
                    if ctx.chance(1, 2) {
                        lines.push("  ".into());
                    }
                    lines.push(String::new());
                }
                let k = *ctx.pick(&[0usize, 1, 2, 4]);
                lines.last_mut().unwrap().push_str(&" ".repeat(k));
            } else {
                // the usual spelling, or any legal amount of spaces
                let usual = t == "(" && prev != "(" || required;
                let k = if wide && ctx.chance(1, 3) {
                    *ctx.pick(&[1usize, 0, 2, 3])
                } else {
                    usual as usize
                };
                let k = if required { k.max(1) } else { k };
                lines.last_mut().unwrap().push_str(&" ".repeat(k));
            }
        }
        lines.last_mut().unwrap().push_str(t);
    }
    lines
}

/// Strict parser of one bracketed tree, used to judge what the writer produced.
pub fn parse_bracket(text: &str, fmt: Fmt) -> Result<MTree, String> {
    let mut toks: Vec<String> = Vec::new();
    let mut cur = String::new();
    for c in text.chars() {
        if c == '(' || c == ')' || c == ' ' || c == '\n' {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
            if c == '(' || c == ')' {
                toks.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut m = MTree::empty();
    let mut stack: Vec<usize> = Vec::new();
    let mut i = 0;
    let mut root = None;
    while i < toks.len() {
        match toks[i].as_str() {
            "(" => {
                let label = toks.get(i + 1).ok_or("end after (")?;
                if label == "(" || label == ")" {
                    return Err("no label".into());
                }
                let mut l = label.clone();
                // tags of words have no annotation
                let mut pos = label.clone();
                let mut edge = None;
                let mut annot = None;
                match fmt {
                    Fmt::TueBa => {
                        if let Some((a, b)) = label.split_once(':') {
                            edge = if b == "--" { None } else { Some(b.to_string()) };
                            l = a.to_string();
                        }
                        pos = l.clone();
                        if let Some((a, b)) = l.clone().split_once('=') {
                            l = a.to_string();
                            annot = Some(b.to_string());
                        }
                    }
                    Fmt::Ptb => {
                        if let Some((a, b)) = label.split_once('-') {
                            l = a.to_string();
                            annot = Some(b.to_string());
                        }
                    }
                    _ => {}
                }
                let next = toks.get(i + 2).ok_or("end after label")?;
                let x = if next != "(" && next != ")" {
                    let t = m.add_term(next, &pos);
                    m.order.push(t);
                    i += 1;
                    t
                } else {
                    let x = m.add_nt(&l);
                    if let Some(a) = annot {
                        m.nodes[x].feats.insert(ANNOT.into(), Some(a));
                    }
                    x
                };
                m.nodes[x].edge = edge;
                if let Some(p) = stack.last() {
                    if m.nodes[*p].term {
                        return Err("node below a word".into());
                    }
                    m.attach(*p, x);
                } else if root.is_none() {
                    m.nodes[x].edge = None;
                    root = Some(x);
                } else {
                    return Err("more than one tree".into());
                }
                stack.push(x);
                i += 2;
            }
            ")" => {
                let x = stack.pop().ok_or("unbalanced )")?;
                if !m.nodes[x].term && m.nodes[x].children.is_empty() {
                    return Err("empty node".into());
                }
                i += 1;
            }
            t => return Err(format!("unexpected {:?}", t)),
        }
    }
    if !stack.is_empty() {
        return Err("unbalanced (".into());
    }
    m.root = root.ok_or("no tree")?;
    Ok(m)
}

// ---- CoNLL-X tags ----------------------------------------------------------

/// Tags of a continuous tree: (ancestor tag, leaf chain) per word.
pub fn encode_tags(m: &MTree, absolute: bool) -> Vec<String> {
    let mut c = m.clone();
    crate::modelops::collapse(&mut c, "_");
    let mut prev = 0i64;
    let mut out = Vec::new();
    for (i, t) in c.order.iter().enumerate() {
        let mut tag = "NONE".to_string();
        if let Some(nx) = c.order.get(i + 1) {
            let mut a = c.nodes[*t].parent.expect("more than one word");
            while !c.is_anc_or_self(a, *nx) {
                a = c.nodes[a].parent.expect("common ancestor");
            }
            let n = c.depth(a) as i64 + 1;
            let label = match c.nodes[a].feats.get("unary_chain") {
                Some(Some(ch)) => format!("{}_{}", ch, c.nodes[a].label),
                _ => c.nodes[a].label.clone(),
            };
            tag = if absolute {
                format!("{}+{}", label, n)
            } else if n == 1 {
                label
            } else {
                format!("{}+{}", label, n - prev)
            };
            prev = n;
        }
        if let Some(Some(ch)) = c.nodes[*t].feats.get("unary_chain") {
            tag.push('~');
            tag.push_str(ch);
        }
        out.push(tag);
    }
    out
}

pub fn conll_line(i: usize, form: &str, lemma: Option<&str>, pos: &str, feats: &str) -> String {
    let f = |s: &str| if s.is_empty() { "_".to_string() } else { s.to_string() };
    format!(
        "{}\t{}\t{}\t_\t{}\t{}\t_\t_\t_\t_",
        i,
        form,
        f(lemma.unwrap_or("")),
        f(pos),
        f(feats)
    )
}

pub fn feats_string(f: &crate::model::Feats) -> String {
    f.iter()
        .map(|(k, v)| match v {
            Some(v) => format!("{}:{}", k, v),
            None => k.clone(),
        })
        .collect::<Vec<_>>()
        .join("|")
}

pub fn emit_tags(m: &MTree, absolute: bool) -> Vec<String> {
    let tags = encode_tags(m, absolute);
    let key = if absolute { "abs_ancestor" } else { "rel_ancestor" };
    m.order
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let n = &m.nodes[*t];
            let mut fe = n.feats.clone();
            fe.insert(key.into(), Some(tags[i].clone()));
            conll_line(i + 1, &n.form, n.lemma.as_deref(), &n.label, &feats_string(&fe))
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub form: String,
    pub lemma: Option<String>,
    pub pos: String,
    pub feats: crate::model::Feats,
}

/// Strict parser of CoNLL-X text.
pub fn parse_conll(text: &str) -> Result<Vec<Vec<Tok>>, String> {
    let mut out = Vec::new();
    let mut cur: Vec<Tok> = Vec::new();
    for line in text.split('\n') {
        if line.is_empty() {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            continue;
        }
        let f: Vec<&str> = line.split('\t').collect();
        if f.len() < 6 {
            return Err(format!("short line {:?}", line));
        }
        if f[0] != (cur.len() + 1).to_string() {
            return Err(format!("token number {} in {:?}", f[0], line));
        }
        let o = |s: &str| if s == "_" { None } else { Some(s.to_string()) };
        let mut feats = crate::model::Feats::new();
        if f[5] != "_" {
            for kv in f[5].split('|') {
                match kv.split_once(':') {
                    Some((k, v)) => feats.insert(k.to_string(), Some(v.to_string())),
                    None => feats.insert(kv.to_string(), None),
                };
            }
        }
        cur.push(Tok {
            form: f[1].to_string(),
            lemma: o(f[2]),
            pos: f[4].to_string(),
            feats,
        });
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    Ok(out)
}

// ---- documents -------------------------------------------------------------

pub fn pick_layout(ctx: &Ctx, tags: bool) -> Layout {
    let all = [
        Layout::Negra,
        Layout::Single(Fmt::Simple),
        Layout::Single(Fmt::Ptb),
        Layout::Single(Fmt::TueBa),
        Layout::Multi(Fmt::Simple),
        Layout::Multi(Fmt::Ptb),
        Layout::Multi(Fmt::TueBa),
        Layout::Negra,
        Layout::Multi(Fmt::Simple),
        Layout::Tags(true),
        Layout::Tags(false),
    ];
    let n = if tags { 11 } else { 9 };
    all[ctx.below(n)]
}

pub fn prepare_gen(ctx: &Ctx, g: &mut Gen, layout: Layout) {
    match layout {
        Layout::Negra => {
            g.discont = ctx.chance(2, 3);
            g.sec = ctx.chance(1, 3);
        }
        Layout::Tags(_) => {
            g.lemma = ctx.chance(1, 2);
            g.root_term = true;
        }
        Layout::Single(_) | Layout::Multi(_) => g.root_term = true,
    }
}

/// A well-formed document of `n_trees` trees.
pub fn gen_doc(ctx: &Ctx, g: &Gen, layout: Layout, n_trees: usize) -> Doc {
    let mut lines: Vec<Line> = Vec::new();
    let mut models = Vec::new();
    let mut canons = Vec::new();
    let other = |lines: &mut Vec<Line>, s: &str| {
        lines.push(Line {
            text: s.as_bytes().to_vec(),
            tag: LineTag::Other,
        })
    };
    let extras = ctx.chance(1, 2);
    let style = NegraStyle {
        tabs: ctx.chance(1, 4),
        pad: !ctx.chance(1, 3),
        comments: ctx.chance(1, 3),
        ids: ctx.weighted(&[6, 6, 6, 1]),
    };
    let mut sid = *ctx.pick(&[1usize, 0, 9, 98, 1234567, 4_294_967_290]);
    if extras && layout == Layout::Negra && ctx.chance(1, 2) {
        for l in ["%% a corpus", "#FORMAT 3", "#BOT ORIGIN", "0\tsource\t--", "#EOT ORIGIN"] {
            other(&mut lines, l);
        }
    }
    for i in 0..n_trees {
        if extras && ctx.chance(1, 4) {
            match layout {
                Layout::Negra => other(&mut lines, *ctx.pick(&["", "%% comment", "   "])),
                Layout::Tags(_) => other(&mut lines, ""),
                Layout::Single(_) => other(&mut lines, *ctx.pick(&["% comment", "%"])),
                Layout::Multi(_) => other(&mut lines, *ctx.pick(&["% comment", "%", ""])),
            }
        }
        let mut m = g.tree(ctx);
        let text = match layout {
            Layout::Negra => {
                let r = m.root;
                m.nodes[r].label = "VROOT".into();
                m.nodes[r].feats.clear();
                let id = sid.to_string();
                m.nodes[r].feats.insert("sentence_id".into(), Some(id.clone()));
                let meta = if ctx.chance(1, 2) {
                    Some(metadata(ctx))
                } else {
                    None
                };
                if let Some(x) = &meta {
                    m.nodes[r].feats.insert("metadata".into(), Some(x.clone()));
                }
                sid += ctx.range(1, 3);
                emit_negra(ctx, &m, &id, meta.as_deref(), &style)
            }
            Layout::Single(f) => emit_bracket(ctx, &m, f, false),
            Layout::Multi(f) => emit_bracket(ctx, &m, f, true),
            Layout::Tags(a) => emit_tags(&m, a),
        };
        let k = text.len();
        for (j, t) in text.into_iter().enumerate() {
            let last = j + 1 == k && !matches!(layout, Layout::Tags(_));
            lines.push(Line {
                text: t.into_bytes(),
                tag: if last { LineTag::Last(i) } else { LineTag::Tree(i) },
            });
        }
        match layout {
            Layout::Negra => {
                if ctx.chance(1, 2) {
                    other(&mut lines, "")
                }
            }
            Layout::Tags(_) => lines.push(Line {
                text: Vec::new(),
                tag: LineTag::Last(i),
            }),
            Layout::Multi(_) => {
                if extras && ctx.chance(1, 4) {
                    other(&mut lines, "")
                }
            }
            _ => {}
        }
        canons.push(as_read(&m, layout.fmt(), None));
        models.push(m);
    }
    let eol: &'static [u8] = if ctx.chance(1, 8) { b"\r\n" } else { b"\n" };
    let last_eol = !ctx.chance(1, 8);
    let mut bytes = Vec::new();
    let mut items: Vec<Item> = Vec::new();
    let n_lines = lines.len();
    let mut start = None;
    let mut it = canons.into_iter().zip(models);
    for (i, l) in lines.iter().enumerate() {
        let s = bytes.len();
        bytes.extend_from_slice(&l.text);
        let te = bytes.len();
        if last_eol || i + 1 < n_lines {
            bytes.extend_from_slice(eol);
        }
        match l.tag {
            LineTag::Tree(_) => {
                start.get_or_insert(s);
            }
            LineTag::Last(_) => {
                let (canon, model) = it.next().unwrap();
                items.push(Item {
                    start: start.take().unwrap_or(s),
                    text_end: te,
                    done: bytes.len(),
                    canon,
                    model,
                });
            }
            LineTag::Other => {}
        }
    }
    Doc {
        layout,
        lines,
        eol,
        last_eol,
        bytes,
        items,
    }
}
