//! C01, C02 and the converter part of G01: the lumberjack-conversion process
//! under a simulated operating system (see shim/shim.c).

use std::io::BufReader;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use conllx::io::{ReadSentence, Reader};
use lumberjack::io::{Decode, TryFromConllx};
use lumberjack::{NegraReader, Tree};

use crate::ctx::{fail, sut_ok, Ctx, Res};
use crate::ensure;
use crate::gen::{Fmt, Gen, Kind};
use crate::model::{diff, Canon, Feats, MTree};
use crate::modelops;
use crate::observe::{observe_wf, Pair};
use crate::props_stream::show_doc;
use crate::props_tree::{check_projectivize, do_projectivize};
use crate::text::{as_read, conll_line, expressible, gen_doc, join_lines, parse_bracket, parse_conll, parse_negra, pick_layout, prepare_gen, Doc, Layout, LineTag};

// ---- processes -------------------------------------------------------------

const LOG_ENTRIES: usize = 65536;
const LOG_SIZE: usize = 8 + LOG_ENTRIES * 16;

/// How the operating system treats one process.
#[derive(Clone, Default)]
struct OsPlan {
    lines: Vec<String>,
    /// Bytes of environment; moves the stack.
    env: usize,
}

impl OsPlan {
    fn push(&mut self, s: String) {
        self.lines.push(s);
    }

    /// Transfer sizes of a target, possibly with interrupted calls.
    fn delivery(&mut self, ctx: &Ctx, target: usize) {
        let k = match ctx.weighted(&[4, 4, 4]) {
            0 => return,
            1 => 1,
            _ => ctx.range(2, 12),
        };
        let small = ctx.chance(1, 2);
        let eintr = ctx.chance(1, 2);
        let mut v = Vec::new();
        for _ in 0..k {
            let n = if small { ctx.range(1, 9) } else { *ctx.pick(&[1usize, 3, 17, 64, 300, 1024, 4096, 8192]) };
            if eintr && ctx.chance(1, 3) {
                v.push(0);
            }
            v.push(n);
        }
        let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        self.push(format!("chunk {} {}", target, s.join(" ")));
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Status {
    Code(i32),
    Signal(i32),
    /// The simulated crash.
    Crashed,
}

struct Ran {
    status: Status,
    out: Vec<u8>,
    err: String,
    /// Hard faults that hit the process: (target, errno, offset).
    hard: Vec<(u8, u16, u64)>,
    crashed: bool,
    alloc: bool,
    calls: u64,
    /// Largest amount of live heap, if asked for.
    peak: u64,
}

impl Ran {
    fn ok(&self) -> bool {
        self.status == Status::Code(0)
    }
}

fn need(name: &str) -> PathBuf {
    PathBuf::from(std::env::var_os(name).unwrap_or_else(|| panic!("harness: {} is not set", name)))
}

fn run(ctx: &Ctx, dir: &Path, args: &[String], stdin: bool, stdout: bool, plan: &OsPlan) -> Res<Ran> {
    let mut text = plan.lines.join("\n");
    if stdin {
        text.push_str("\nstd 0");
    }
    if stdout {
        text.push_str("\nstd 1");
    }
    text.push('\n');
    std::fs::write(dir.join("plan"), &text).expect("plan");
    let log = std::fs::File::create(dir.join("log")).expect("log");
    log.set_len(LOG_SIZE as u64).expect("log");
    drop(log);
    let file = |n: &str| std::fs::File::create(dir.join(n)).expect("file");
    let mut c = Command::new(need("SIM_CLI"));
    c.current_dir(dir).args(args).env_clear();
    c.env("LD_PRELOAD", need("SIM_SHIM"));
    if plan.env > 0 {
        c.env("PAD", "x".repeat(plan.env));
    }
    c.stdin(if stdin {
        std::fs::File::open(dir.join("in.txt")).map(Stdio::from).unwrap_or_else(|_| Stdio::null())
    } else {
        Stdio::null()
    });
    c.stdout(if stdout { Stdio::from(file("out.txt")) } else { Stdio::null() });
    c.stderr(Stdio::from(file("err.txt")));
    unsafe {
        c.pre_exec(|| {
            libc::personality(0x0040000);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = libc::rlimit {
                rlim_cur: 10,
                rlim_max: 12,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            Ok(())
        });
    }
    ctx.note(|| format!("lumberjack-conversion {}\n{}", args.join(" "), text.trim()));
    let st = c.status().expect("process");
    let raw = std::fs::read(dir.join("log")).expect("log");
    let used = u64::from_le_bytes(raw[..8].try_into().unwrap()) as usize;
    let mut r = Ran {
        status: match (st.code(), st.signal()) {
            (Some(n), _) => Status::Code(n),
            (_, Some(s)) => Status::Signal(s),
            _ => Status::Code(-1),
        },
        out: std::fs::read(dir.join("out.txt")).unwrap_or_default(),
        err: String::from_utf8_lossy(&std::fs::read(dir.join("err.txt")).unwrap_or_default()).into_owned(),
        hard: Vec::new(),
        crashed: false,
        alloc: false,
        calls: used as u64,
        peak: 0,
    };
    for e in raw[8..].chunks(16).take(used) {
        let (kind, target) = (e[0], e[1]);
        let err = u16::from_le_bytes([e[2], e[3]]);
        let n = u32::from_le_bytes(e[4..8].try_into().unwrap());
        let off = u64::from_le_bytes(e[8..16].try_into().unwrap());
        let input = target != 1;
        match kind {
            1 => ctx.event(if input { "read" } else { "write" }, off, n as u64),
            2 => ctx.fault(if input { "short_read" } else { "short_write" }),
            3 => ctx.fault(if input { "read_eintr" } else { "write_eintr" }),
            4 => {
                ctx.fault(if input { "read_error" } else { "write_error" });
                ctx.event("error", off, err as u64);
                r.hard.push((target, err, off));
            }
            5 => {
                if input {
                    ctx.fault("early_eof");
                } else {
                    ctx.fault("write_zero");
                }
                ctx.event("zero", off, target as u64);
                r.hard.push((target, 0, off));
            }
            6 => {
                ctx.fault("crash");
                ctx.event("crash", off, target as u64);
                r.crashed = true;
            }
            7 => ctx.event("open", target as u64, 0),
            8 => {
                ctx.fault(if err == libc::EINTR as u16 { "open_eintr" } else { "open_error" });
                ctx.event("open-error", target as u64, err as u64);
                if err != libc::EINTR as u16 {
                    r.hard.push((target, err, 0));
                }
            }
            9 => {
                ctx.fault("allocation_failure");
                ctx.event("alloc", off, n as u64);
                r.alloc = true;
            }
            10 => r.peak = off,
            _ => return fail("harness", "corrupt log"),
        }
    }
    if r.crashed && r.status == Status::Code(77) {
        r.status = Status::Crashed;
    }
    ctx.event("exit", r.ok() as u64, r.out.len() as u64);
    ctx.hash_bytes(&r.out);
    ctx.note(|| format!("{:?}\n{}\n--- output\n{}", r.status, r.err.trim(), show_doc(&r.out)));
    if let Status::Signal(s) = r.status {
        if s == libc::SIGXCPU || s == libc::SIGKILL {
            return fail("hang", "the converter does not terminate (CPU limit)".to_string());
        }
    }
    Ok(r)
}

// ---- cases -----------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Bracket(Fmt),
    Negra,
    Conllx,
    Tags(bool),
}

impl Out {
    fn name(self) -> &'static str {
        match self {
            Out::Bracket(f) => f.name(),
            Out::Negra => "negra",
            Out::Conllx => "conllx",
            Out::Tags(true) => "absolute",
            Out::Tags(false) => "relative",
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Opts {
    remove_dummies: bool,
    projectivize: bool,
    sec_edges: bool,
    /// Tags per sentence.
    pos: Option<Vec<Vec<String>>>,
    reattach: Option<String>,
    id_set: Option<Vec<String>>,
    id_feature: Option<String>,
    filter: Option<Vec<String>>,
    insertion_set: Option<Vec<String>>,
    insertion_label: Option<String>,
    parent: Option<String>,
}

struct Case {
    doc: Doc,
    out: Out,
    opts: Opts,
    stdin: bool,
    stdout: bool,
    args: Vec<String>,
}

fn set_text(ctx: &Ctx, v: &[String]) -> String {
    let mut s = String::new();
    for x in v {
        s.push_str(x);
        s.push_str(*ctx.pick(&[" ", "\n", "\t", "  \n", "\r\n"]));
    }
    if ctx.chance(1, 3) {
        s = s.trim_end().to_string();
    }
    s
}

fn pos_text(v: &[Vec<String>]) -> String {
    let mut s = String::new();
    for sent in v {
        for (i, t) in sent.iter().enumerate() {
            s.push_str(&conll_line(i + 1, "w", None, t, ""));
            s.push('\n');
        }
        s.push('\n');
    }
    s
}

/// Files of the case and the command line.
fn prepare(ctx: &Ctx, dir: &Path, case: &mut Case) {
    let w = |n: &str, s: &[u8]| std::fs::write(dir.join(n), s).expect("file");
    for n in ["in.txt", "out.txt", "pos.txt", "id.set", "filter.set", "ins.set"] {
        let _ = std::fs::remove_file(dir.join(n));
    }
    w("in.txt", &case.doc.bytes);
    let mut groups: Vec<Vec<String>> = Vec::new();
    let o = &case.opts;
    let mut val = |name: &str, v: &str| {
        // (the argument parser drops leading '=' of an attached value)
        if v.starts_with('-') || !v.starts_with('=') && ctx.chance(1, 2) {
            groups.push(vec![format!("--{}={}", name, v)])
        } else {
            groups.push(vec![format!("--{}", name), v.to_string()])
        }
    };
    if !case.stdin {
        val("input_file", "in.txt");
    }
    if !case.stdout {
        val("output_file", "out.txt");
    }
    let (in_name, multi) = match case.doc.layout {
        Layout::Negra => ("negra", false),
        Layout::Single(f) => (f.name(), false),
        Layout::Multi(f) => (f.name(), true),
        Layout::Tags(true) => ("absolute", false),
        Layout::Tags(false) => ("relative", false),
    };
    if in_name != "tueba" || ctx.chance(1, 2) {
        val("input_format", in_name);
    }
    if case.out.name() != "simple" || ctx.chance(1, 2) {
        val("output_format", case.out.name());
    }
    if let Some(x) = &o.parent {
        val("parent", x);
    }
    if let Some(x) = &o.insertion_label {
        val("insertion_label", x);
    }
    if let Some(x) = &o.id_feature {
        val("id_feature", x);
    }
    if let Some(x) = &o.reattach {
        val("reattach", x);
    }
    if let Some(x) = &o.id_set {
        w("id.set", set_text(ctx, x).as_bytes());
        val("id_set", "id.set");
    }
    if let Some(x) = &o.filter {
        w("filter.set", set_text(ctx, x).as_bytes());
        val("filter", "filter.set");
    }
    if let Some(x) = &o.insertion_set {
        w("ins.set", set_text(ctx, x).as_bytes());
        val("insertion_set", "ins.set");
    }
    if let Some(x) = &o.pos {
        w("pos.txt", pos_text(x).as_bytes());
        val("pos", "pos.txt");
    }
    for (on, name) in [
        (multi, "--multiline_brackets"),
        (o.remove_dummies, "--remove_dummies"),
        (o.projectivize, "--projectivize"),
        (o.sec_edges, "--sec_edges"),
    ] {
        if on {
            groups.push(vec![name.to_string()]);
        }
    }
    // the order on the command line does not matter
    let mut args = Vec::new();
    while !groups.is_empty() {
        let i = ctx.below(groups.len());
        args.extend(groups.remove(i));
    }
    case.args = args;
}

fn labels(m: &[&MTree], term: bool) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for m in m {
        for n in m.live() {
            // (lists of labels are separated by white space)
            if m.nodes[n].term == term && !m.nodes[n].label.contains(char::is_whitespace) {
                v.push(m.nodes[n].label.clone());
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn some_of(ctx: &Ctx, v: &[String]) -> Vec<String> {
    let k = ctx.range(1, 4) as u64;
    let mut r: Vec<String> = v.iter().filter(|_| ctx.chance(k, 4)).cloned().collect();
    if r.is_empty() || ctx.chance(1, 6) {
        r.push("NOSUCH".into());
    }
    r
}

/// A treebank, options and an output format. `tame`: only combinations that
/// can be converted completely.
fn draw_case(ctx: &Ctx, tame: bool, max_trees: usize) -> Case {
    let layout = pick_layout(ctx, true);
    let out = *ctx.pick(&[
        Out::Bracket(Fmt::Simple),
        Out::Bracket(Fmt::Ptb),
        Out::Bracket(Fmt::TueBa),
        Out::Negra,
        Out::Negra,
        Out::Conllx,
        Out::Conllx,
        Out::Tags(true),
        Out::Tags(false),
    ]);
    let mut g = Gen::swarm(ctx, Fmt::All);
    prepare_gen(ctx, &mut g, layout);
    let same = match (layout, out) {
        (Layout::Negra, Out::Negra) => true,
        (Layout::Single(a), Out::Bracket(b)) | (Layout::Multi(a), Out::Bracket(b)) => a == b,
        (Layout::Tags(_), Out::Tags(_)) => true,
        _ => false,
    };
    if same && ctx.chance(1, 2) {
        g.fmt = layout.fmt();
    }
    if tame {
        g.root_term = false;
    }
    g.parens = layout == Layout::Negra && ctx.chance(1, 4);
    let n = match ctx.weighted(&[2, 10, 10, 2]) {
        0 if !tame => 0,
        0 | 1 => 1,
        2 => ctx.range(1, 5),
        _ => ctx.range(4, max_trees),
    };
    if n > 5 {
        g.max_terms = g.max_terms.min(10);
    }
    g.dummies = ctx.chance(1, 8);
    if !tame && ctx.chance(1, 6) {
        g.odd = match layout {
            Layout::Negra => &[],
            Layout::Tags(_) => &[' ', '\u{a0}', '\u{2003}'],
            _ => &['\t', '\u{a0}', '\u{2003}'],
        };
    }
    let doc = gen_doc(ctx, &g, layout, n);
    let ms: Vec<MTree> = doc.items.iter().map(|i| MTree::from_canon(&i.canon)).collect();
    let refs: Vec<&MTree> = ms.iter().collect();
    let nts = labels(&refs, false);
    let tags = labels(&refs, true);
    let mut o = Opts::default();
    let discont = ms.iter().any(|m| !m.projective());
    let p = |num| ctx.chance(num, 8);
    o.remove_dummies = p(if g.dummies { 7 } else { 1 });
    o.projectivize = if discont {
        tame && !matches!(out, Out::Negra | Out::Conllx) || p(5)
    } else {
        p(1)
    };
    o.sec_edges = o.projectivize && p(4);
    if p(1) {
        let mut v: Vec<Vec<String>> = ms.iter().map(|m| (0..m.n()).map(|_| g.word(ctx, Kind::Pos).replace("_", "U")).collect()).collect();
        if !tame && p(2) && !v.is_empty() {
            // not enough or too many tags
            let i = ctx.below(v.len());
            match ctx.below(4) {
                0 => v.truncate(i),
                1 => {
                    v[i].push("X".into());
                }
                2 if v[i].len() > 1 => {
                    v[i].pop();
                }
                _ => v.push(vec!["X".into()]),
            }
        }
        o.pos = Some(v);
    }
    if p(2) {
        o.reattach = Some(match ctx.below(4) {
            0 => "NOSUCH".to_string(),
            1 if !tags.is_empty() => ctx.pick(&tags).clone(),
            _ if !tags.is_empty() => ctx.pick(&tags).chars().take(1).collect(),
            _ => "$".to_string(),
        });
    }
    if p(2) {
        o.id_set = Some(some_of(ctx, &nts));
        if p(3) {
            // the morphology column of NEGRA is a feature as well
            let names: &[&str] = if out == Out::Negra { &["sid", "k"] } else { &["sid", "k", "morph"] };
            o.id_feature = Some(ctx.pick(names).to_string());
        }
    }
    if p(2) {
        o.filter = Some(some_of(ctx, &nts));
    }
    if p(2) {
        o.insertion_set = Some(some_of(ctx, &nts));
        if p(4) {
            o.insertion_label = Some(ctx.pick(&["INS", "S", "NP"]).to_string());
        }
    }
    if p(2) {
        o.parent = Some(ctx.pick(&["parent", "ptag", "id", "k"]).to_string());
    }
    let mut case = Case {
        doc,
        out,
        opts: o,
        stdin: ctx.chance(1, 2),
        stdout: ctx.chance(1, 2),
        args: Vec::new(),
    };
    if g.dummies && case.opts.remove_dummies {
        ctx.probe("dummies");
    }
    prepare(ctx, &ctx.scratch(), &mut case);
    ctx.hash_bytes(&case.doc.bytes);
    ctx.hash_bytes(case.args.join("\n").as_bytes());
    ctx.note(|| format!("input {} ({} trees)\n{}", layout.name(), n, show_doc(&case.doc.bytes)));
    case
}

// ---- what has to come out ----------------------------------------------------

struct Exp {
    m: MTree,
    /// Nearest node with an id, per word (if ids are annotated).
    ids: Option<Vec<Option<usize>>>,
}

/// The tree as projectivized by the library (checked against the model).
fn projectivized(ctx: &Ctx, case: &Case, i: usize, m: &mut MTree) -> Res {
    let it = &case.doc.items[i];
    let text = &case.doc.bytes[it.start..it.done];
    let t = match sut_ok("NegraReader", || NegraReader::new(BufReader::new(text)).next())? {
        Some(Ok(t)) => t,
        _ => return fail("not-read", format!("tree {} is not read", i)),
    };
    let mut p = Pair::adopt(t, "read tree")?;
    if let Some(d) = diff(&it.canon, &[], &p.m.canon()) {
        return fail("not-read", format!("tree {}: {}", i, d));
    }
    if case.opts.remove_dummies {
        let t = &mut p.tree;
        let r = sut_ok("remove_dummy_nodes", || t.remove_dummy_nodes().map_err(|e| e.to_string()))?;
        ensure!(r.is_ok(), "refused", "remove_dummy_nodes: {:?}", r);
        modelops::remove_dummies(&mut p.m);
        p.check("after remove_dummy_nodes", "content")?;
    }
    let moves = do_projectivize(&mut p.tree)?;
    check_projectivize(&mut p, &moves, "projectivized tree")?;
    if case.opts.sec_edges {
        for (old, edge, _, child) in moves.unwrap_or_default() {
            let (Some(a), Some(b)) = (p.model_of(old), p.model_of(child)) else {
                return fail("moves", "unknown nodes");
            };
            let l = match edge {
                Some(l) => format!("np_{}", l),
                None => "np".into(),
            };
            p.m.add_sec(a, b, Some(l));
        }
    }
    ctx.probe("projectivized");
    *m = p.m;
    Ok(())
}

/// Apply the options to one tree; `None`: the conversion has to fail here.
fn apply(ctx: &Ctx, case: &Case, i: usize) -> Res<Option<Exp>> {
    let o = &case.opts;
    let mut m = MTree::from_canon(&case.doc.items[i].canon);
    let mut done = false;
    if o.projectivize && case.doc.layout == Layout::Negra {
        let mut probe = m.clone();
        if o.remove_dummies {
            modelops::remove_dummies(&mut probe);
        }
        if !probe.projective() {
            projectivized(ctx, case, i, &mut m)?;
            done = true;
        }
    }
    if o.remove_dummies && !done {
        modelops::remove_dummies(&mut m);
    }
    let root_term = m.nodes[m.root].term;
    if let Some(pos) = &o.pos {
        let Some(s) = pos.get(i) else { return Ok(None) };
        if s.len() != m.n() {
            return Ok(None);
        }
        for (t, l) in m.order.clone().iter().zip(s) {
            m.nodes[*t].label = l.clone();
        }
    }
    if let Some(pre) = &o.reattach {
        let sel: Vec<usize> = m.order.iter().cloned().filter(|t| m.nodes[*t].label.starts_with(pre.as_str())).collect();
        let r = m.root;
        modelops::reattach(&mut m, r, &sel);
    }
    let mut ids = None;
    if let Some(set) = &o.id_set {
        let r = m.root;
        ids = Some(modelops::nearest(&m, |n, l| n == r || set.iter().any(|x| x == l)));
    }
    if let Some(set) = &o.filter {
        modelops::filter(&mut m, |l| set.iter().any(|x| x == l));
    }
    if let Some(set) = &o.insertion_set {
        if root_term {
            return Ok(None);
        }
        let ins = o.insertion_label.clone().unwrap_or("UNK".into());
        modelops::insert_intermediate(&mut m, |l| if set.iter().any(|x| x == l) { None } else { Some(ins.clone()) });
    }
    if let Some(f) = &o.parent {
        if root_term {
            return Ok(None);
        }
        modelops::parent_tag(&mut m, f);
    }
    let ok = match case.out {
        Out::Bracket(_) | Out::Tags(_) => m.projective(),
        Out::Negra => !root_term,
        Out::Conllx => true,
    };
    let fmt = match case.out {
        Out::Bracket(f) => f,
        Out::Negra => Fmt::Negra,
        Out::Conllx | Out::Tags(_) => Fmt::Tags,
    };
    let mut ok = ok && expressible(&m, fmt);
    if let Out::Tags(_) = case.out {
        // labels of nodes are part of the tags
        ok = ok && m.nts().iter().all(|n| !m.nodes[*n].label.contains('\t'));
    }
    Ok(if ok { Some(Exp { m, ids }) } else { None })
}

fn cmp(i: usize, exp: &Canon, loose: &[bool], got: &Canon, what: &str) -> Res {
    match diff(exp, loose, got) {
        None => Ok(()),
        Some(d) => fail(
            "wrong-output",
            format!("{}: tree {}: {}\nexpected:\n{}got:\n{}", what, i, d, exp.show(), got.show()),
        ),
    }
}

/// Judge the output against the expected trees.
fn judge(case: &Case, exps: &[Exp], out: &[u8]) -> Res {
    let text = match std::str::from_utf8(out) {
        Ok(t) => t,
        Err(_) => return fail("wrong-output", "the output is not UTF-8"),
    };
    let bad = |e: String| fail("wrong-output", format!("unreadable output: {}\n{}", e, show_doc(out)));
    let count = |n: usize| {
        if n == exps.len() {
            Ok(())
        } else {
            fail("wrong-output", format!("{} trees in the output, expected {}", n, exps.len()))
        }
    };
    match case.out {
        Out::Bracket(f) => {
            let ls: Vec<&str> = text.lines().collect();
            count(ls.len())?;
            ensure!(text.is_empty() || text.ends_with('\n'), "wrong-output", "unterminated line");
            for (i, (e, l)) in exps.iter().zip(ls).enumerate() {
                let got = match parse_bracket(l, f) {
                    Ok(t) => t.canon(),
                    Err(x) => return bad(x),
                };
                let (_, _, loose) = e.m.canon_full();
                cmp(i, &as_read(&e.m, f, None), &loose, &got, case.out.name())?;
            }
        }
        Out::Negra => {
            let ts = match parse_negra(text) {
                Ok(t) => t,
                Err(x) => return bad(x),
            };
            count(ts.len())?;
            let mut last: Option<u64> = None;
            let mut owned = false;
            for (i, (e, t)) in exps.iter().zip(ts).enumerate() {
                let sid = t.nodes[t.root].feats.get("sentence_id").cloned().flatten();
                let own = e.m.nodes[e.m.root].feats.contains_key("sentence_id");
                if !own {
                    let n = sid.as_deref().and_then(|s| s.parse::<u64>().ok());
                    ensure!(
                        n.is_some() && (last.is_none() || n > last) && (owned || n == Some(i as u64)),
                        "wrong-output",
                        "unnumbered sentence {} got number {:?} after {:?}",
                        i,
                        sid,
                        last
                    );
                    last = n;
                } else {
                    owned = true;
                }
                let exp = as_read(&e.m, Fmt::Negra, sid.as_deref());
                let (_, _, loose) = e.m.canon_full();
                let got = t.canon();
                cmp(i, &exp, &loose, &got, "negra")?;
            }
        }
        Out::Conllx | Out::Tags(_) => {
            let ss = match parse_conll(text) {
                Ok(t) => t,
                Err(x) => return bad(x),
            };
            count(ss.len())?;
            ensure!(text.is_empty() || text.ends_with('\n'), "wrong-output", "unterminated line");
            let tag_key = match case.out {
                Out::Tags(true) => Some("abs_ancestor"),
                Out::Tags(false) => Some("rel_ancestor"),
                _ => None,
            };
            for (i, (e, s)) in exps.iter().zip(&ss).enumerate() {
                ensure!(s.len() == e.m.n(), "wrong-output", "sentence {}: {} tokens for {} words", i, s.len(), e.m.n());
                let id_key = case.opts.id_feature.clone().unwrap_or("id".into());
                let id_visible = e.ids.is_some() && case.opts.parent.as_ref() != Some(&id_key);
                let mut vals: Vec<(usize, String)> = Vec::new();
                for (k, (t, w)) in s.iter().zip(&e.m.order).enumerate() {
                    let n = &e.m.nodes[*w];
                    let mut f = t.feats.clone();
                    let mut want: Feats = n.feats.clone();
                    if let Some(key) = tag_key {
                        ensure!(
                            matches!(f.remove(key), Some(Some(_))),
                            "wrong-output",
                            "sentence {}: token {:?} has no {}",
                            i,
                            t,
                            key
                        );
                        f.remove("unary_chain");
                    }
                    if id_visible {
                        if let Some(a) = e.ids.as_ref().unwrap()[k] {
                            want.remove(&id_key);
                            match f.remove(&id_key) {
                                Some(Some(v)) if !v.is_empty() => vals.push((a, v)),
                                x => return fail("wrong-output", format!("sentence {}: token {} has id {:?}", i, k, x)),
                            }
                        }
                    }
                    ensure!(
                        t.form == n.form && t.lemma == n.lemma && t.pos == n.label && f == want,
                        "wrong-output",
                        "sentence {}: token {:?}, expected {:?} {:?} {:?} {:?}",
                        i,
                        t,
                        n.form,
                        n.lemma,
                        n.label,
                        want
                    );
                }
                for a in &vals {
                    for b in &vals {
                        ensure!(
                            (a.0 == b.0) == (a.1 == b.1),
                            "wrong-output",
                            "sentence {}: ids {:?} do not tell the nodes apart (or the same node has two)",
                            i,
                            vals
                        );
                    }
                }
            }
            if let Out::Tags(abs) = case.out {
                let mut it = Reader::new(BufReader::new(text.as_bytes())).sentences();
                for (i, e) in exps.iter().enumerate() {
                    let Some(Ok(s)) = it.next() else {
                        return bad(format!("sentence {}", i));
                    };
                    let t = sut_ok("decoding", || {
                        if abs {
                            Tree::try_from_conllx_with_absolute_encoding(&s)
                        } else {
                            Tree::try_from_conllx_with_relative_encoding(&s)
                        }
                        .map_err(|e| e.to_string())
                    })?;
                    match t {
                        Ok(t) => {
                            let got = observe_wf(&t, "decoded output")?.canon;
                            cmp(i, &as_read(&e.m, Fmt::Tags, None), &[], &got, "decoded output")?;
                        }
                        Err(x) => return bad(format!("sentence {}: {}", i, x)),
                    }
                }
            }
        }
    }
    Ok(())
}

fn os_plan(ctx: &Ctx) -> OsPlan {
    let mut p = OsPlan::default();
    p.push(format!("seed {}", ctx.draw(1 << 30)));
    if ctx.chance(1, 4) {
        p.push(format!("junk {}", ctx.below(60)));
        p.env = ctx.below(4000);
    }
    p
}

// ---- C02 -------------------------------------------------------------------

pub fn c02(ctx: &Ctx) -> Res {
    let dir = ctx.scratch();
    let mut case = draw_case(ctx, false, 30);
    let mut exps = Vec::new();
    let mut fails = false;
    for i in 0..case.doc.items.len() {
        match apply(ctx, &case, i)? {
            Some(e) => exps.push(e),
            None => {
                fails = true;
                break;
            }
        }
    }
    let mut first: Option<Ran> = None;
    for round in 0..ctx.range(1, 2) {
        if round > 0 {
            case.stdin = ctx.chance(1, 2);
            case.stdout = ctx.chance(1, 2);
            prepare(ctx, &dir, &mut case);
        }
        let mut plan = os_plan(ctx);
        for t in 0..4 {
            plan.delivery(ctx, t);
        }
        if ctx.chance(1, 10) {
            plan.push(format!("open {} {} 1", ctx.below(4), libc::EINTR));
        }
        let r = run(ctx, &dir, &case.args, case.stdin, case.stdout, &plan)?;
        if r.calls > 8 {
            ctx.nontrivial();
        }
        let what = format!("{} to {} {:?}", case.doc.layout.name(), case.out.name(), case.opts);
        if fails {
            ensure!(
                !r.ok(),
                "success-reported",
                "{}: tree {} cannot be converted, but the exit status is 0",
                what,
                exps.len()
            );
            ctx.probe("inexpressible");
        } else {
            ensure!(
                r.ok(),
                "refused",
                "{}: the converter failed ({:?}): {}",
                what,
                r.status,
                r.err
            );
        }
        ensure!(
            !r.err.contains("panicked"),
            "panic",
            "{}: the converter panicked: {}",
            what,
            r.err
        );
        judge(&case, &exps, &r.out)?;
        if let Some(f) = &first {
            ensure!(
                f.out == r.out,
                "delivery-dependent",
                "{}: the output depends on the delivery:\n{}\n{}",
                what,
                show_doc(&f.out),
                show_doc(&r.out)
            );
        }
        first = Some(r);
    }
    Ok(())
}

// ---- C01 -------------------------------------------------------------------

const READ_ERRNO: [i32; 5] = [libc::EIO, libc::EISDIR, libc::ENOMEM, libc::EAGAIN, libc::ESTALE];
const WRITE_ERRNO: [i32; 6] = [libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EDQUOT, libc::EFBIG, libc::EAGAIN];
const OPEN_ERRNO: [i32; 5] = [libc::EACCES, libc::EMFILE, libc::EIO, libc::ENFILE, libc::ELOOP];

/// Text that no reader may accept as a tree.
fn malformed(ctx: &Ctx, layout: Layout) -> Vec<String> {
    let v: &[&[&str]] = match layout {
        Layout::Negra => &[
            &["#BOS 5 x", "w\t--\tN\t--\tHD\t500", "#EOS 5"],
            &["#BOS 5 x", "w\t--\tN\t--\tHD\tabc", "#EOS 5"],
            &["#BOS 5 x", "w\t--\tN", "#EOS 5"],
            &["#BOS 5 x", "w\t--\tN\t--\tHD\t500", "#500\t--\tS\t--\t--\t501", "#501\t--\tS\t--\t--\t500", "#EOS 5"],
            &["#BOS 5 x", "w\t--\tN\t--\tHD\t0", "#500\t--\tS\t--\t--\t0", "#EOS 5"],
        ],
        Layout::Single(_) => &[
            &["(S (A a)"],
            &["(S ())"],
            &["(S (A a)))"],
            &["S a"],
            &["(S (A a"],
            &["(S)"],
            &["()"],
        ],
        Layout::Multi(_) => &[&["(S (A a)))"], &["(S ())"], &["(S", "(A a)", "))"], &["()"], &["(S", "(A a)"]],
        Layout::Tags(_) => &[
            &["1\tw\t_\t_\tN\t_\t_\t_\t_\t_", ""],
            &["x\tw\t_\t_\tN\tabs_ancestor:S+1|rel_ancestor:S+1\t_\t_\t_\t_", ""],
            &["1\tw\t_\t_\tN\tabs_ancestor:S+x|rel_ancestor:S+x\t_\t_\t_\t_", "2\tw\t_\t_\tN\tabs_ancestor:NONE|rel_ancestor:NONE\t_\t_\t_\t_", ""],
            &["1", ""],
        ],
    };
    ctx.pick(v).iter().map(|s| s.to_string()).collect()
}

/// Document with the lines of tree `k` replaced (or all lines from it on
/// dropped).
fn with_tree(doc: &Doc, k: usize, text: Option<&[String]>) -> Vec<u8> {
    let mut lines = Vec::new();
    let mut put = false;
    for l in &doc.lines {
        let of = match l.tag {
            LineTag::Tree(i) | LineTag::Last(i) => Some(i),
            LineTag::Other => None,
        };
        match (of, text) {
            (Some(i), Some(t)) if i == k => {
                if !put {
                    put = true;
                    for s in t {
                        let mut n = l.clone();
                        n.text = s.clone().into_bytes();
                        lines.push(n);
                    }
                }
            }
            (Some(i), None) if i >= k => {}
            _ => lines.push(l.clone()),
        }
    }
    join_lines(&lines, doc.eol, true)
}

/// Output of a fault-free conversion of the given input.
fn reference(ctx: &Ctx, dir: &Path, case: &Case, input: &[u8]) -> Res<Ran> {
    std::fs::write(dir.join("in.txt"), input).expect("file");
    let _ = std::fs::remove_file(dir.join("out.txt"));
    let r = run(ctx, dir, &case.args, case.stdin, case.stdout, &OsPlan::default())?;
    ensure!(r.hard.is_empty(), "harness", "fault without a plan");
    Ok(r)
}

pub fn c01(ctx: &Ctx) -> Res {
    let dir = ctx.scratch();
    let case = draw_case(ctx, true, 40);
    let full = reference(ctx, &dir, &case, &case.doc.bytes)?;
    if !full.ok() {
        // whether it should have succeeded is another property
        ctx.probe("reference_failed");
        return Ok(());
    }
    let full = full.out;
    let n_in = case.doc.bytes.len();
    let items = &case.doc.items;
    // output of the trees before item k
    let upto = |k: usize| -> Res<Vec<u8>> {
        if k == 0 {
            return Ok(Vec::new());
        }
        if k >= items.len() {
            return Ok(full.clone());
        }
        let r = reference(ctx, &dir, &case, &with_tree(&case.doc, k, None))?;
        ensure!(
            r.ok() && full.starts_with(&r.out),
            "not-a-prefix",
            "converting only the first {} trees ({:?}) does not give a prefix of the complete output",
            k,
            r.status
        );
        Ok(r.out)
    };
    let mut plan = os_plan(ctx);
    for t in 0..4 {
        plan.delivery(ctx, t);
    }
    let mut input = case.doc.bytes.clone();
    // the output if nothing goes wrong from here on
    let mut goal = full.clone();
    let mut must_fail = false;
    let mut least = Vec::new();
    let mut exact = false;
    let kind = ctx.weighted(&[8, 8, 5, 5, 5, 2, 2, 2, 2]);
    let offset = |ctx: &Ctx| -> usize {
        match ctx.below(3) {
            0 => ctx.below(n_in + 1),
            1 => n_in,
            _ => {
                let i = ctx.pick(items);
                (*ctx.pick(&[i.start, i.text_end, i.done]) + ctx.below(3)).saturating_sub(ctx.below(3)).min(n_in)
            }
        }
    };
    match kind {
        0 => {
            // the sink fails
            for _ in 0..ctx.range(1, 2) {
                let at = match ctx.below(3) {
                    0 => full.len().saturating_sub(ctx.below(4)),
                    1 => ctx.below(full.len() + 1),
                    _ => {
                        // around a line end
                        let nl: Vec<usize> = (0..full.len()).filter(|i| full[*i] == b'\n').collect();
                        if nl.is_empty() {
                            0
                        } else {
                            (ctx.pick(&nl) + ctx.below(3)).min(full.len())
                        }
                    }
                };
                let e = if ctx.chance(1, 6) { 0 } else { *ctx.pick(&WRITE_ERRNO) };
                plan.push(format!("fault 1 {} {} {}", at, e, *ctx.pick(&[0, 1, 2])));
            }
        }
        1 => {
            // the input fails
            let at = offset(ctx);
            plan.push(format!("fault 0 {} {} {}", at, *ctx.pick(&READ_ERRNO), *ctx.pick(&[0, 1, 3])));
            // a line without terminator is only complete at the end of the stream
            let end = |i: &crate::text::Item| if i.done == i.text_end { i.done + 1 } else { i.done };
            let k = items.iter().filter(|i| end(i) <= at).count();
            least = upto(k)?;
            must_fail = true;
        }
        2 if !matches!(case.doc.layout, Layout::Tags(_)) => {
            // the input is truncated
            let at = offset(ctx);
            let k = items.iter().filter(|i| i.text_end <= at).count();
            let inside = items.iter().any(|i| {
                i.start < at && at < i.text_end && !(case.doc.layout == Layout::Negra && at < i.start + 4)
            });
            let vague = std::str::from_utf8(&input[..at]).is_err()
                || at > 0 && at < n_in && input[at - 1] == b'\r'
                || items.iter().any(|i| i.start < at && at < i.start + 4);
            least = upto(k)?;
            input.truncate(at);
            goal = least.clone();
            must_fail = inside;
            exact = true;
            if at < n_in {
                ctx.fault("early_eof");
            }
            if vague && !inside {
                // stray bytes may be an error
                let r = {
                    std::fs::write(dir.join("in.txt"), &input).expect("file");
                    run(ctx, &dir, &case.args, case.stdin, case.stdout, &plan)?
                };
                ensure!(r.out == goal, "wrong-output", "truncated at {}: not the complete trees", at);
                return Ok(());
            }
        }
        3 => {
            // one tree is malformed
            let k = ctx.below(items.len());
            let text = malformed(ctx, case.doc.layout);
            least = upto(k)?;
            input = with_tree(&case.doc, k, Some(&text));
            goal = least.clone();
            must_fail = true;
            exact = true;
            ctx.fault("malformed_tree");
        }
        4 => {
            // the process dies
            if ctx.chance(1, 3) {
                plan.push(format!("crash 0 {}", offset(ctx)));
            } else {
                plan.push(format!("crash 1 {}", ctx.below(full.len() + 1)));
            }
        }
        5 => {
            // a file cannot be opened
            let e = *ctx.pick(&OPEN_ERRNO);
            plan.push(format!("open {} {} {}", ctx.below(4), e, *ctx.pick(&[0, 1])));
        }
        6 => {
            plan.push(format!("alloc {}", 1 + ctx.draw(*ctx.pick(&[40u64, 400, 4000]))));
        }
        7 if case.opts.pos.is_some() => {
            let n = pos_text(case.opts.pos.as_ref().unwrap()).len();
            if ctx.chance(1, 3) {
                // truncated at the end of a sentence: the remaining trees have
                // no tags
                let text = pos_text(case.opts.pos.as_ref().unwrap());
                let nl: Vec<usize> = (0..n - 2).filter(|i| text.as_bytes()[*i] == b'\n').map(|i| i + 1).collect();
                let at = if nl.is_empty() { 0 } else { *ctx.pick(&nl) };
                plan.push(format!("fault 2 {} 0 0", at));
            } else {
                plan.push(format!("fault 2 {} {} 0", ctx.below(n), *ctx.pick(&READ_ERRNO)));
            }
        }
        _ => {
            // label sets
            let e = *ctx.pick(&READ_ERRNO);
            plan.push(format!("fault 3 {} {} {}", ctx.below(6), e, *ctx.pick(&[0, 1])));
        }
    }
    // leftovers of an earlier run
    if !case.stdout && ctx.chance(1, 3) {
        let mut junk = full.clone();
        junk.extend_from_slice(b"leftover\n");
        std::fs::write(dir.join("out.txt"), &junk).expect("file");
        if plan.lines.iter().any(|l| l.starts_with("open 1") || l.starts_with("open 0") || l.starts_with("alloc")) {
            std::fs::remove_file(dir.join("out.txt")).expect("file");
        }
    } else {
        let _ = std::fs::remove_file(dir.join("out.txt"));
    }
    std::fs::write(dir.join("in.txt"), &input).expect("file");
    let stale = dir.join("out.txt").exists();
    let r = run(ctx, &dir, &case.args, case.stdin, case.stdout, &plan)?;
    let what = format!(
        "{} to {} {:?}\nplan: {:?}",
        case.doc.layout.name(),
        case.out.name(),
        case.opts,
        plan.lines
    );
    if !r.hard.is_empty() || r.crashed || r.alloc {
        must_fail = must_fail || !r.hard.is_empty() || r.crashed;
        ctx.nontrivial();
    }
    if must_fail {
        ctx.nontrivial();
        ensure!(
            !r.ok(),
            "success-reported",
            "{}\nfaults {:?}: the exit status is 0",
            what,
            r.hard
        );
    }
    if r.ok() {
        ensure!(
            r.out == goal,
            "success-reported",
            "{}\nexit status 0, but {} of {} bytes of the output (or other ones)\nexpected:\n{}\ngot:\n{}",
            what,
            r.out.len(),
            goal.len(),
            show_doc(&goal),
            show_doc(&r.out)
        );
    } else if r.hard.is_empty() && !r.crashed && !r.alloc && !must_fail {
        return fail("refused", format!("{}\nno fault occurred, but {:?}: {}", what, r.status, r.err));
    }
    // untouched leftovers if the output was never opened
    let opened = case.stdout || !stale || r.ok() || r.out != { let mut j = full.clone(); j.extend_from_slice(b"leftover\n"); j };
    if opened {
        let goal = if exact { &goal } else { &full };
        ensure!(
            goal.starts_with(&r.out),
            "not-a-prefix",
            "{}\n{:?}: the output is no prefix of the fault-free output\nexpected:\n{}\ngot:\n{}",
            what,
            r.status,
            show_doc(goal),
            show_doc(&r.out)
        );
        let floor = match r.hard.iter().filter(|h| h.0 == 1).map(|h| h.2).min() {
            Some(x) => x as usize,
            None => least.len(),
        };
        ensure!(
            r.out.len() >= floor,
            "lost-output",
            "{}\n{:?}: only {} bytes of output, {} belong to trees before the fault\ngot:\n{}",
            what,
            r.status,
            r.out.len(),
            floor,
            show_doc(&r.out)
        );
    }
    if let Status::Signal(s) = r.status {
        ensure!(r.alloc, "abort", "{}\nended by signal {}: {}", what, s, r.err);
    }
    // again without faults
    if ctx.chance(1, 3) {
        std::fs::write(dir.join("in.txt"), &case.doc.bytes).expect("file");
        let r = run(ctx, &dir, &case.args, case.stdin, case.stdout, &OsPlan::default())?;
        ctx.fault("restart");
        ensure!(
            r.ok() && r.out == full,
            "rerun",
            "{}\nthe conversion was repeated without faults ({:?}) but the output is not complete",
            what,
            r.status
        );
    }
    Ok(())
}

// ---- G01 -------------------------------------------------------------------

/// The same conversion in several processes.
pub fn same_everywhere(ctx: &Ctx) -> Res {
    let dir = ctx.scratch();
    let case = draw_case(ctx, false, 8);
    let mut first: Option<Ran> = None;
    for i in 0..ctx.range(2, 3) {
        let mut plan = OsPlan::default();
        plan.push(format!("seed {}", ctx.draw(1 << 40)));
        plan.push(format!("junk {}", ctx.below(60)));
        plan.env = ctx.below(9000);
        if i > 0 {
            ctx.fault("process_changed");
        }
        let r = run(ctx, &dir, &case.args, case.stdin, case.stdout, &plan)?;
        if let Some(f) = &first {
            ensure!(
                f.status == r.status && f.out == r.out,
                "nondeterminism",
                "{} to {} {:?}: two processes give different results:\n{:?}\n{}\n{:?}\n{}",
                case.doc.layout.name(),
                case.out.name(),
                case.opts,
                f.status,
                show_doc(&f.out),
                r.status,
                show_doc(&r.out)
            );
        }
        first = Some(r);
    }
    ctx.probe("processes");
    Ok(())
}

// ---- G03 -------------------------------------------------------------------

/// The converter needs the same memory for short and long treebanks.
pub fn flat_process(ctx: &Ctx) -> Res {
    let dir = ctx.scratch();
    let mut case = draw_case(ctx, true, 4);
    if case.doc.items.is_empty() {
        return Ok(());
    }
    case.stdout |= !case.stdin;
    prepare(ctx, &dir, &mut case);
    let mut block = case.doc.bytes.clone();
    if !case.doc.last_eol {
        block.extend_from_slice(case.doc.eol);
    }
    if !block.ends_with(b"\n") {
        block.push(b'\n');
    }
    if matches!(case.doc.layout, Layout::Tags(_)) && !block.ends_with(b"\n\n") {
        block.push(b'\n');
    }
    if block.len() > 6000 {
        // buffers for long lines grow by how a line happens to be cut by reads
        return Ok(());
    }
    let pos = std::fs::read(dir.join("pos.txt")).ok();
    let mut plan = OsPlan::default();
    plan.push("mem 1".into());
    if ctx.chance(1, 2) {
        let n = *ctx.pick(&[4096usize, 1000, 8192, 100]);
        plan.push(format!("chunk 0 {}", n));
        plan.push(format!("chunk 1 {}", n));
    }
    let mut block = crate::props_mem::Varied::new(ctx, &block, case.doc.layout);
    let few = 4 + 6000 / block.len();
    let many = few * 8 + ctx.below(3);
    let mut peaks = Vec::new();
    for k in [few, many] {
        let mut text = Vec::with_capacity(k * block.len());
        for i in 0..k {
            text.extend_from_slice(block.fill(i));
        }
        std::fs::write(dir.join("in.txt"), text).expect("file");
        if let Some(p) = &pos {
            std::fs::write(dir.join("pos.txt"), p.repeat(k)).expect("file");
        }
        let _ = std::fs::remove_file(dir.join("out.txt"));
        let r = run(ctx, &dir, &case.args, case.stdin, case.stdout, &plan)?;
        if !r.ok() {
            // not convertible, or not separable: other properties
            ctx.probe("conversion_failed");
            return Ok(());
        }
        if r.peak == 0 {
            return fail("harness", "no heap size in the log");
        }
        peaks.push(r.peak);
    }
    ctx.probe("converter");
    ctx.nontrivial();
    ensure!(
        peaks[1] <= peaks[0] + 4096 + 4 * block.len() as u64,
        "grows",
        "{} to {} {:?}: {} bytes of heap for {} trees, {} for {}",
        case.doc.layout.name(),
        case.out.name(),
        case.opts,
        peaks[0],
        few * case.doc.items.len(),
        peaks[1],
        many * case.doc.items.len()
    );
    Ok(())
}
