//! Generators of trees. 0 on the tape is always the smallest choice.

use crate::ctx::Ctx;
use crate::model::{MTree, ANNOT};

/// What the strings of a tree have to be compatible with.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    /// No restriction.
    Free,
    Negra,
    Simple,
    Ptb,
    TueBa,
    /// Tag-encoded CoNLL-X.
    Tags,
    /// Representable everywhere.
    All,
}

impl Fmt {
    pub fn bracket(self) -> bool {
        matches!(self, Fmt::Simple | Fmt::Ptb | Fmt::TueBa)
    }
    pub fn name(self) -> &'static str {
        match self {
            Fmt::Free => "free",
            Fmt::Negra => "negra",
            Fmt::Simple => "simple",
            Fmt::Ptb => "ptb",
            Fmt::TueBa => "tueba",
            Fmt::Tags => "tags",
            Fmt::All => "all",
        }
    }
    pub fn lib(self) -> lumberjack::io::PTBFormat {
        use lumberjack::io::PTBFormat::*;
        match self {
            Fmt::Simple => Simple,
            Fmt::Ptb => PTB,
            Fmt::TueBa => TueBa,
            _ => unreachable!("not a bracket format"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Form,
    Pos,
    Label,
    Edge,
    Lemma,
    Morph,
    Annot,
    SecLabel,
    Key,
    Val,
}

#[derive(Clone, Debug)]
pub struct Gen {
    pub fmt: Fmt,
    pub max_terms: usize,
    pub discont: bool,
    pub unary: bool,
    /// Arbitrary additional features.
    pub feats: bool,
    pub morph: bool,
    pub annot: bool,
    pub edges: bool,
    pub lemma: bool,
    pub sec: bool,
    pub root_term: bool,
    pub unicode: bool,
    pub long: bool,
    /// Round brackets inside words and tags.
    pub parens: bool,
    pub fancy: bool,
    pub deep: bool,
    /// Nodes labelled like those a repaired encoding needs.
    pub dummies: bool,
    /// White space some stored formats can carry in words, tags, and labels.
    pub odd: &'static [char],
}

impl Gen {
    /// Draw a configuration ("swarm"): every run explores another mix.
    pub fn swarm(ctx: &Ctx, fmt: Fmt) -> Gen {
        let max_terms = match ctx.weighted(&[5000, 3000, 1400, 500, 95, 5]) {
            0 => 5,
            1 => 10,
            2 => 24,
            3 => 70,
            4 => 180,
            _ => 640,
        };
        let c = |n: u64, d: u64| ctx.chance(n, d);
        if max_terms == 640 {
            // large but plain: counters beyond 8 bits, node numbers beyond 999
            return Gen {
                fmt,
                max_terms,
                discont: false,
                unary: true,
                feats: false,
                morph: c(1, 2),
                annot: c(1, 2),
                edges: c(1, 2),
                lemma: c(1, 2),
                sec: false,
                root_term: false,
                unicode: false,
                long: false,
                parens: false,
                fancy: false,
                deep: true,
                dummies: false,
                odd: &[],
            };
        }
        Gen {
            fmt,
            max_terms,
            discont: false,
            unary: c(2, 3),
            feats: false,
            morph: c(1, 2),
            annot: c(1, 2),
            edges: c(2, 3),
            lemma: c(1, 2),
            sec: false,
            root_term: false,
            unicode: c(1, 2),
            long: c(1, 12),
            parens: false,
            fancy: c(2, 3),
            deep: c(1, 6),
            dummies: false,
            odd: &[],
        }
    }

    pub fn word(&self, ctx: &Ctx, k: Kind) -> String {
        let pool: &[&str] = match k {
            Kind::Form => &[
                "a", "b", "Haus", "der", "x", "1998", "ist", "A", "c", "d", "w1", "w2", "sehr",
            ],
            Kind::Pos => &["N", "V", "DET", "ADJA", "VVFIN", "PUNCT", "A", "ART"],
            Kind::Label => &["S", "NP", "VP", "X", "PP", "SIMPX", "VF", "NX", "L", "MF", "A", "AP"],
            Kind::Edge => &["HD", "SB", "OA", "NK", "-", "MO", "ON", "N"],
            Kind::Lemma => &["sein", "haus", "a", "l1", "l2", "gehen"],
            Kind::Morph => &["nsf", "3sis", "p", "Nom.Sg", "asm"],
            Kind::Annot => &["SBJ", "ORG", "TMP", "LOC", "a1", "PER"],
            Kind::SecLabel => &["refint", "np", "refvc", "EN", "CM", "-"],
            Kind::Key => &["k", "f1", "tf", "case", "num"],
            Kind::Val => &["v", "1", "x2", "acc", "ORG"],
        };
        if !self.fancy || !ctx.chance(1, 3) {
            return ctx.pick(pool).to_string();
        }
        if k == Kind::Pos && ctx.chance(1, 30) {
            return if self.fmt.bracket() && ctx.chance(2, 3) {
                ctx.pick(&["-NONE-", "-LRB-", "WP-X"]).to_string()
            } else {
                "_".into()
            };
        }
        // assembled from characters the format can carry
        let mut chars: Vec<char> = "abXY01".chars().collect();
        let f = self.fmt;
        let bracket = f.bracket();
        match k {
            Kind::Form => {
                chars.extend(".,;!?'\"&$*/%-_=+<>[]{}@^`\\".chars());
                if f == Fmt::Free || f == Fmt::Simple || f == Fmt::Ptb || f == Fmt::TueBa || f == Fmt::Negra || f == Fmt::Tags {
                    chars.extend(":|~#".chars());
                }
                if self.parens {
                    chars.extend("()()".chars());
                }
            }
            Kind::Lemma => {
                chars.extend(".,;!?'\"&$*/%-=+<>[]{}@^`#|:~".chars());
            }
            Kind::Pos => {
                chars.extend(".,;!?$*/%'\"&".chars());
                match f {
                    Fmt::Simple | Fmt::Negra | Fmt::Free => chars.extend("-:=#|~+_".chars()),
                    Fmt::Tags => chars.extend("-:=#|~+".chars()),
                    Fmt::Ptb => chars.extend("-:=#|~+_".chars()),
                    Fmt::TueBa => chars.extend("-=#|~+_".chars()),
                    Fmt::All => {}
                }
                if self.parens && bracket {
                    chars.extend("()".chars());
                }
            }
            Kind::Label => {
                chars.extend(".,;!?$*/%'\"&".chars());
                match f {
                    Fmt::Free => chars.extend("-:=#|~+_() ".chars()),
                    Fmt::Negra => chars.extend("-:#|~+_()".chars()),
                    Fmt::Simple => chars.extend("-:=#|~+_".chars()),
                    Fmt::Tags => chars.extend("-=#".chars()),
                    Fmt::Ptb => chars.extend(":=#|~+_".chars()),
                    Fmt::TueBa => chars.extend("-#|~+_".chars()),
                    Fmt::All => {}
                }
            }
            Kind::Annot => {
                chars.extend("./*%".chars());
                match f {
                    Fmt::Free | Fmt::Ptb => chars.extend("-:=+_".chars()),
                    Fmt::Negra => chars.extend("-:+_=".chars()),
                    Fmt::TueBa => chars.extend("-+_=".chars()),
                    _ => {}
                }
            }
            Kind::Edge => {
                chars.extend("./*%-+_$".chars());
                match f {
                    Fmt::Free | Fmt::Negra => chars.extend("=:#".chars()),
                    Fmt::TueBa => chars.extend("=#:".chars()),
                    _ => {}
                }
            }
            Kind::Morph | Kind::SecLabel => chars.extend("./*-+=$".chars()),
            Kind::Key | Kind::Val => {
                chars.extend(".-+=$#*/".chars());
                if f == Fmt::Free {
                    chars.extend("_~ ".chars());
                }
            }
        }
        if self.unicode {
            chars.extend("äßÄ€漢字😀é\u{301}ñ\u{200b}".chars());
            if bracket && k == Kind::Form {
                chars.push('\u{a0}');
            }
        }
        let len = match ctx.weighted(&[60, 30, 9, 1]) {
            0 => ctx.range(1, 3),
            1 => ctx.range(1, 8),
            2 => ctx.range(1, 40),
            _ => ctx.range(1, 120),
        };
        let mut s = String::new();
        if self.long && ctx.chance(1, 10) {
            let c = *ctx.pick(&chars);
            let n = if ctx.chance(1, 40) { 66_000 } else { *ctx.pick(&[60usize, 250, 1030, 4200, 8200, 9001]) };
            s.push('a');
            for _ in 0..n {
                s.push(c);
            }
        } else {
            for _ in 0..len {
                s.push(*ctx.pick(&chars));
            }
        }
        self.legal(k, s)
    }

    /// Repair the few strings that formats reserve.
    fn legal(&self, k: Kind, mut s: String) -> String {
        match k {
            Kind::Form => {
                // a NEGRA line starting with '#' is not a word line
                if s.starts_with('#') && self.fmt != Fmt::Free {
                    s.insert(0, 'x');
                }
                // "%" starts a comment in bracketed streams only at line start
            }
            Kind::Lemma | Kind::Morph | Kind::Edge => {
                if s == "--" || s == "_" {
                    s = "x".into();
                }
            }
            Kind::SecLabel => {
                if s == "--" || s.starts_with('%') {
                    s.insert(0, 'x');
                }
            }
            Kind::Pos | Kind::Label => {
                if s == "_" || s == "NONE" || s == "DUMMY" {
                    s = "X".into();
                }
                // nothing a reader could take for a header or footer
                if s.starts_with('#') {
                    s.insert(0, 'x');
                }
            }
            _ => {}
        }
        if matches!(k, Kind::Form | Kind::Lemma | Kind::Pos) && s == "_" {
            s = "u".into();
        }
        s
    }

    pub fn tree(&self, ctx: &Ctx) -> MTree {
        let mut m = MTree::empty();
        let n = if ctx.chance(1, 12) {
            1
        } else if self.max_terms >= 600 {
            ctx.range(200, self.max_terms)
        } else {
            // mostly spread over the range, sometimes at its upper end
            ctx.range(1, self.max_terms)
        };
        let mut top: Vec<usize> = Vec::new();
        for _ in 0..n {
            let mut f = self.word(ctx, Kind::Form);
            let mut p = self.word(ctx, Kind::Pos);
            self.spaced(ctx, &mut f);
            self.spaced(ctx, &mut p);
            if !self.odd.is_empty() && ctx.chance(1, 30) {
                f.insert(0, '#');
            }
            let t = m.add_term(&f, &p);
            if self.lemma && ctx.chance(1, 2) {
                m.nodes[t].lemma = Some(self.word(ctx, Kind::Lemma));
            }
            if self.morph && ctx.chance(1, 2) {
                let v = self.word(ctx, Kind::Morph);
                m.nodes[t].feats.insert("morph".into(), Some(v));
            }
            self.extra_feats(ctx, &mut m, t);
            m.order.push(t);
            top.push(t);
        }
        if n == 1 && self.root_term && ctx.chance(1, 2) {
            m.root = top[0];
            return m;
        }
        if self.unary && n >= 60 && ctx.chance(1, 3) {
            // nearly as many nodes as words
            for i in 0..n {
                if ctx.chance(4, 5) {
                    self.wrap(ctx, &mut m, &mut top, i, 1);
                }
            }
        }
        let max_steps = if self.deep { 2 * n + 12 } else { n + 2 };
        // either the structure ends by chance, or it is grown to some size
        let fixed = self.max_terms >= 600 || ctx.chance(1, 4);
        let steps = if fixed { ctx.range(max_steps / 3, max_steps) } else { max_steps };
        let tower = self.deep && ctx.chance(1, 60);
        if n >= 8 && ctx.chance(1, 12) {
            // a branch of many levels, words to either side of it
            let mut levels = ctx.range(3, n - 2).min(60);
            let mut i = ctx.below(n - 1);
            let mut dir = ctx.below(3);
            while levels > 0 && top.len() > 2 {
                let left = match dir {
                    0 => false,
                    1 => true,
                    _ => ctx.chance(1, 2),
                };
                if left && i == 0 || !left && i + 1 == top.len() {
                    if dir == 2 {
                        dir = if left { 0 } else { 1 };
                        continue;
                    }
                    break;
                }
                if left {
                    i -= 1;
                }
                self.wrap(ctx, &mut m, &mut top, i, 2);
                levels -= 1;
            }
        }
        for _ in 0..steps {
            let w_unary = if self.unary { 3 } else { 0 };
            let w_dis = if self.discont { 5 } else { 0 };
            let k = ctx.weighted(&[if fixed { 0 } else { 2 }, 7, w_unary, w_dis]);
            match k {
                0 => {
                    if !(self.deep && ctx.chance(3, 4)) {
                        break;
                    }
                }
                1 => {
                    if top.len() < 2 {
                        if self.unary {
                            self.wrap(ctx, &mut m, &mut top, 0, 1);
                        }
                        continue;
                    }
                    let i = ctx.below(top.len() - 1);
                    let max = (top.len() - i).min(if ctx.chance(1, 6) { 12 } else { 4 });
                    let len = ctx.range(2, max.max(2)).min(top.len() - i);
                    self.wrap(ctx, &mut m, &mut top, i, len);
                }
                2 => {
                    let i = ctx.below(top.len());
                    let times = if self.deep { ctx.range(1, 5) } else { 1 };
                    for _ in 0..times {
                        self.wrap(ctx, &mut m, &mut top, i, 1);
                    }
                    if tower && ctx.chance(1, 4) {
                        for _ in 0..ctx.range(20, 130) {
                            self.wrap(ctx, &mut m, &mut top, i, 1);
                        }
                    }
                }
                _ => {
                    // a discontinuous group
                    if top.len() < 3 {
                        continue;
                    }
                    let mut chosen = Vec::new();
                    for i in 0..top.len() {
                        if ctx.chance(2, 5) {
                            chosen.push(i);
                        }
                    }
                    if chosen.len() < 2 || chosen.len() == top.len() {
                        continue;
                    }
                    let x = self.nt(ctx, &mut m);
                    for i in &chosen {
                        let c = top[*i];
                        self.put(ctx, &mut m, x, c);
                    }
                    top[chosen[0]] = x;
                    for i in chosen[1..].iter().rev() {
                        top.remove(*i);
                    }
                }
            }
        }
        if top.len() == 1 && !m.nodes[top[0]].term && ctx.chance(1, 2) {
            m.root = top[0];
        } else {
            let r = self.nt(ctx, &mut m);
            for c in top {
                self.put(ctx, &mut m, r, c);
            }
            m.root = r;
        }
        if self.sec {
            let k = ctx.below(5);
            let live = m.live();
            for _ in 0..k {
                let c = *ctx.pick(&live);
                let nts = m.nts();
                let p = *ctx.pick(&nts);
                if c == m.root || c == p {
                    continue;
                }
                let label = if ctx.chance(3, 4) {
                    Some(self.word(ctx, Kind::SecLabel))
                } else {
                    None
                };
                m.add_sec(p, c, label);
            }
        }
        m
    }

    fn extra_feats(&self, ctx: &Ctx, m: &mut MTree, n: usize) {
        if self.feats && ctx.chance(1, 3) {
            let k = if self.fmt == Fmt::Free && ctx.chance(1, 6) {
                // keys the transformations use themselves
                ctx.pick(&["ptag", "tags", "id", "unary_chain", "parent", "morph"]).to_string()
            } else {
                self.word(ctx, Kind::Key)
            };
            let v = if ctx.chance(4, 5) {
                Some(self.word(ctx, Kind::Val))
            } else {
                None
            };
            m.nodes[n].feats.insert(k, v);
        }
    }

    pub fn nt(&self, ctx: &Ctx, m: &mut MTree) -> usize {
        let l = if self.dummies && ctx.chance(1, 4) {
            "DUMMY".into()
        } else {
            self.word(ctx, Kind::Label)
        };
        let mut l = l;
        self.spaced(ctx, &mut l);
        let x = m.add_nt(&l);
        if self.annot && ctx.chance(1, 3) {
            let a = self.word(ctx, Kind::Annot);
            m.nodes[x].feats.insert(ANNOT.into(), Some(a));
        }
        self.extra_feats(ctx, m, x);
        x
    }

    fn spaced(&self, ctx: &Ctx, s: &mut String) {
        if !self.odd.is_empty() && ctx.chance(1, 20) {
            s.push(*ctx.pick(self.odd));
            s.push('a');
        }
    }

    fn put(&self, ctx: &Ctx, m: &mut MTree, p: usize, c: usize) {
        m.attach(p, c);
        if self.edges && ctx.chance(2, 3) {
            m.nodes[c].edge = Some(self.word(ctx, Kind::Edge));
        }
    }

    fn wrap(&self, ctx: &Ctx, m: &mut MTree, top: &mut Vec<usize>, i: usize, len: usize) {
        let x = self.nt(ctx, m);
        for c in top[i..i + len].to_vec() {
            self.put(ctx, m, x, c);
        }
        top.splice(i..i + len, [x]);
    }
}
