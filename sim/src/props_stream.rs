//! S01-S06: readers over simulated streams.

use std::sync::Arc;

use conllx::io::{ReadSentence, Reader};
use failure::Error;
use lumberjack::io::{PTBLineFormat, TryFromConllx};
use lumberjack::{NegraReader, PTBReader, Tree};

use crate::ctx::{fail, sut_ok, Ctx, Res};
use crate::ensure;
use crate::gen::{Fmt, Gen};
use crate::io::{source, ReadErr, ReadPlan, Source, HARD};
use crate::model::{diff, Canon};
use crate::observe::observe_wf;
use crate::text::{gen_doc, join_lines, pick_layout, prepare_gen, Doc, Layout, Line, LineTag};

pub type TreeIter = Box<dyn Iterator<Item = Result<Tree, Error>> + Send>;

pub fn open(layout: Layout, src: Source) -> TreeIter {
    match layout {
        Layout::Negra => Box::new(NegraReader::new(src)),
        Layout::Single(f) => Box::new(PTBReader::new(src, f.lib(), PTBLineFormat::SingleLine)),
        Layout::Multi(f) => Box::new(PTBReader::new(src, f.lib(), PTBLineFormat::MultiLine)),
        Layout::Tags(abs) => Box::new(Reader::new(src).sentences().map(move |s| {
            let s = s?;
            if abs {
                Tree::try_from_conllx_with_absolute_encoding(&s)
            } else {
                Tree::try_from_conllx_with_relative_encoding(&s)
            }
        })),
    }
}

pub fn next_item(it: &mut TreeIter) -> Res<Option<Result<Tree, String>>> {
    let r = sut_ok("the reader", || it.next())?;
    Ok(r.map(|x| x.map_err(|e| e.to_string())))
}

pub fn show_doc(bytes: &[u8]) -> String {
    let s = String::from_utf8_lossy(bytes);
    if s.len() > 3000 {
        let mut e = 3000;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...[{} bytes]", &s[..e], bytes.len())
    } else {
        s.into_owned()
    }
}

fn num_trees(ctx: &Ctx, g: &mut Gen) -> usize {
    if g.max_terms > 500 {
        return ctx.range(1, 2);
    }
    let n = match ctx.weighted(&[3000, 3000, 3000, 800, 195, 5]) {
        0 => 1,
        1 => 2,
        2 => ctx.range(1, 6),
        3 => ctx.range(1, 20),
        4 => ctx.range(10, 60),
        _ => ctx.range(200, 1100),
    };
    if n > 8 {
        g.max_terms = g.max_terms.min(10);
    }
    if n > 100 {
        // a long stream of small trees
        g.max_terms = g.max_terms.min(3);
        g.long = false;
        g.deep = false;
    }
    n
}

pub fn draw_doc(ctx: &Ctx, tags: bool) -> Doc {
    let layout = pick_layout(ctx, tags);
    let mut g = Gen::swarm(ctx, layout.fmt());
    prepare_gen(ctx, &mut g, layout);
    let n = num_trees(ctx, &mut g);
    let doc = gen_doc(ctx, &g, layout, n);
    ctx.note(|| format!("document {} ({} trees)\n{}", layout.name(), n, show_doc(&doc.bytes)));
    ctx.hash_bytes(&doc.bytes);
    doc
}

fn compare(i: usize, exp: &Canon, got: &Canon, class: &str, what: &str) -> Res {
    if let Some(d) = diff(exp, &[], got) {
        return fail(
            class,
            format!("{}: tree {}: {}\nexpected:\n{}got:\n{}", what, i, d, exp.show(), got.show()),
        );
    }
    Ok(())
}

/// The reader yields exactly the given trees and then ends.
pub fn expect_exact(it: &mut TreeIter, exp: &[&Canon], class: &str, what: &str) -> Res {
    for (i, e) in exp.iter().enumerate() {
        match next_item(it)? {
            Some(Ok(t)) => {
                let o = observe_wf(&t, what)?;
                compare(i, e, &o.canon, class, what)?;
            }
            Some(Err(x)) => return fail(class, format!("{}: error instead of tree {}: {}", what, i, x)),
            None => return fail(class, format!("{}: end of input instead of tree {}", what, i)),
        }
    }
    for _ in 0..2 {
        match next_item(it)? {
            None => {}
            Some(Ok(_)) => return fail(class, format!("{}: a tree after the last tree", what)),
            Some(Err(x)) => return fail(class, format!("{}: an error after the last tree: {}", what, x)),
        }
    }
    Ok(())
}

// ---- S01 -------------------------------------------------------------------

pub fn s01(ctx: &Ctx) -> Res {
    let doc = draw_doc(ctx, true);
    let exp: Vec<&Canon> = doc.items.iter().map(|i| &i.canon).collect();
    let data = Arc::new(doc.bytes.clone());
    let k = ctx.range(1, 3);
    for d in 0..k {
        let plan = ReadPlan::draw(ctx);
        let (src, stat) = source(ctx, &data, &plan, None);
        let mut it = open(doc.layout, src);
        let what = format!("{} delivery {}", doc.layout.name(), d);
        expect_exact(&mut it, &exp, "wrong-tree", &what)?;
        let s = stat.lock().unwrap();
        if s.calls > 2 {
            ctx.nontrivial();
        }
    }
    Ok(())
}

// ---- S02 -------------------------------------------------------------------

/// An offset in the document, biased to the places where state changes.
fn draw_offset(ctx: &Ctx, doc: &Doc) -> usize {
    let n = doc.bytes.len();
    match ctx.weighted(&[2, 2, 3, 4, 2]) {
        0 => 0,
        1 => n,
        2 => {
            let i = ctx.pick(&doc.items);
            let base = *ctx.pick(&[i.start, i.text_end, i.done]);
            (base + ctx.below(3)).saturating_sub(ctx.below(3)).min(n)
        }
        3 => ctx.below(n + 1),
        _ => {
            // a line boundary
            let nl: Vec<usize> = doc
                .bytes
                .iter()
                .enumerate()
                .filter(|x| *x.1 == b'\n')
                .map(|x| x.0)
                .collect();
            if nl.is_empty() {
                n
            } else {
                (ctx.pick(&nl) + ctx.below(2)).min(n)
            }
        }
    }
}

pub fn s02(ctx: &Ctx) -> Res {
    let doc = draw_doc(ctx, false);
    let multi = matches!(doc.layout, Layout::Multi(_));
    let mut plan = ReadPlan::draw(ctx);
    let k = ctx.weighted(&[6, 3, 1]) + 1;
    let mut sticky = false;
    for i in 0..k {
        let at = draw_offset(ctx, &doc);
        let kind = *ctx.pick(&HARD);
        let times = match ctx.weighted(&[6, 2, 1]) {
            0 => 1,
            1 => ctx.range(2, 3) as u32,
            _ if i + 1 == k => {
                sticky = true;
                u32::MAX
            }
            _ => 1,
        };
        plan.errors.push(ReadErr { at, kind, times });
    }
    plan.errors.sort_by_key(|e| e.at);
    if sticky {
        let p = plan.errors.iter().position(|e| e.times == u32::MAX).unwrap();
        plan.errors.truncate(p + 1);
    }
    ctx.note(|| format!("errors {:?}", plan.errors));
    let offs: Vec<usize> = plan.errors.iter().map(|e| e.at).collect();
    let first = offs[0];
    let data = Arc::new(doc.bytes.clone());
    let (src, stat) = source(ctx, &data, &plan, None);
    let mut it = open(doc.layout, src);
    // what has to come, what may come
    let stop = if sticky { *offs.last().unwrap() } else { usize::MAX };
    // a line that is not terminated is only complete at the end of the stream
    let end = |i: &crate::text::Item| if i.done == i.text_end { i.done + 1 } else { i.done };
    let safe = |i: &crate::text::Item| !offs.iter().any(|o| i.start < *o && *o < end(i)) && end(i) <= stop;
    let must: Vec<&Canon> = doc.items.iter().filter(|i| safe(i)).map(|i| &i.canon).collect();
    let before = doc.items.iter().filter(|i| end(i) <= first).count();
    let maybe: Vec<&Canon> = doc
        .items
        .iter()
        .filter(|i| !safe(i) && !offs.iter().any(|o| i.start < *o && *o < i.text_end))
        .map(|i| &i.canon)
        .collect();
    let cap = doc.lines.len() * 2 + 20;
    let mut next_must = 0;
    let mut n_ok = 0;
    let mut n_err = 0;
    let mut fired = 0;
    let mut ended = false;
    let mut extra = 0;
    for _ in 0..cap {
        let item = next_item(&mut it)?;
        let now = stat.lock().unwrap().fired;
        if now > fired {
            ensure!(
                now == fired + 1 || matches!(item, Some(Err(_))),
                "error-lost",
                "two read errors, no error item"
            );
            match &item {
                Some(Err(_)) => {}
                Some(Ok(_)) => return fail("error-lost", "the read error was swallowed: a tree was yielded instead"),
                None => return fail("error-as-end", "a read error was reported as the end of input"),
            }
            ensure!(
                now - fired == 1,
                "error-lost",
                "{} read errors were reported as one item",
                now - fired
            );
            if fired == 0 {
                ensure!(
                    n_ok >= before && next_must == before.min(must.len()),
                    "lost-before",
                    "{} of {} trees delivered before the error were yielded",
                    n_ok,
                    before
                );
                ctx.nontrivial();
            }
        }
        fired = now;
        match item {
            Some(Ok(t)) => {
                n_ok += 1;
                let o = observe_wf(&t, "tree from a failing stream")?;
                if next_must < must.len() && *must[next_must] == o.canon {
                    next_must += 1;
                } else if fired == 0 {
                    if next_must < must.len() {
                        compare(n_ok - 1, must[next_must], &o.canon, "wrong-tree", "before the error")?;
                    }
                    if !maybe.iter().any(|m| **m == o.canon) {
                        return fail("wrong-tree", format!("unexpected tree before the error:\n{}", o.canon.show()));
                    }
                } else if maybe.iter().any(|m| **m == o.canon) {
                    ctx.probe("unterminated_tree_yielded");
                } else if multi {
                    extra += 1;
                    ctx.probe("fragment_yielded");
                } else {
                    if next_must < must.len() {
                        compare(n_ok - 1, must[next_must], &o.canon, "wrong-tree", "after the error")?;
                    }
                    return fail("wrong-tree", format!("unexpected tree after the error:\n{}", o.canon.show()));
                }
            }
            Some(Err(_)) => {
                n_err += 1;
                ensure!(fired > 0, "spurious-error", "error item without a read error");
                if sticky && n_err > 5 && stat.lock().unwrap().max_start >= stop {
                    ended = true;
                    break;
                }
            }
            None => {
                ended = true;
                break;
            }
        }
    }
    ensure!(ended, "no-end", "no end after {} items", cap);
    if !sticky {
        ensure!(
            fired == plan.errors.iter().map(|e| e.times as u64).sum::<u64>(),
            "error-lost",
            "the reader ended before reaching all of the stream"
        );
    }
    ensure!(
        next_must == must.len(),
        "lost-after",
        "only {} of {} intact trees were yielded ({} items, {} errors)",
        next_must,
        must.len(),
        n_ok + n_err,
        n_err
    );
    ensure!(
        n_err as u64 >= fired.min(1),
        "error-lost",
        "no error item for {} read errors",
        fired
    );
    let interrupted: usize = doc.items.iter().filter(|i| !safe(i)).count();
    ensure!(
        extra == 0 || interrupted > 0,
        "wrong-tree",
        "{} trees that are not in the document",
        extra
    );
    Ok(())
}

// ---- S03 -------------------------------------------------------------------

pub fn s03(ctx: &Ctx) -> Res {
    let doc = draw_doc(ctx, false);
    let cuts = ctx.range(1, 4);
    for _ in 0..cuts {
        let cut = draw_offset(ctx, &doc);
        ctx.note(|| format!("cut at {}", cut));
        ctx.event("cut", cut as u64, doc.bytes.len() as u64);
        if cut < doc.bytes.len() {
            ctx.fault("early_eof");
        }
        let data = Arc::new(doc.bytes[..cut].to_vec());
        let plan = ReadPlan::draw(ctx);
        let (src, _) = source(ctx, &data, &plan, None);
        let mut it = open(doc.layout, src);
        let complete: Vec<&Canon> = doc.items.iter().filter(|i| i.text_end <= cut).map(|i| &i.canon).collect();
        let inside = doc.items.iter().any(|i| {
            i.start < cut
                && cut < i.text_end
                // a cut inside the word "#BOS" itself cannot be told from stray text
                && !(doc.layout == Layout::Negra && cut < i.start + 4)
        });
        let maybe_err = inside
            || std::str::from_utf8(&data).is_err()
            || (cut > 0 && cut < doc.bytes.len() && doc.bytes[cut - 1] == b'\r')
            || doc.items.iter().any(|i| i.start < cut && cut < i.start + 4);
        let mut errs = 0;
        let mut got = 0;
        let mut ended = false;
        for _ in 0..doc.lines.len() + 8 {
            match next_item(&mut it)? {
                Some(Ok(t)) => {
                    ensure!(errs == 0, "tree-after-error", "a tree after the error for the cut tree");
                    let o = observe_wf(&t, "tree from a truncated stream")?;
                    ensure!(
                        got < complete.len(),
                        "shortened",
                        "cut at {}: a tree beyond the {} complete ones:\n{}",
                        cut,
                        complete.len(),
                        o.canon.show()
                    );
                    compare(got, complete[got], &o.canon, "wrong-tree", "truncated stream")?;
                    got += 1;
                }
                Some(Err(e)) => {
                    ensure!(
                        maybe_err,
                        "spurious-error",
                        "cut at {} lies outside of every tree, but: {}",
                        cut,
                        e
                    );
                    errs += 1;
                }
                None => {
                    ended = true;
                    break;
                }
            }
        }
        ensure!(ended, "no-end", "cut at {}: no end of input", cut);
        ensure!(
            got == complete.len(),
            "lost",
            "cut at {}: {} of {} complete trees",
            cut,
            got,
            complete.len()
        );
        ensure!(!inside || errs > 0, "silent", "cut at {} inside a tree: reported as normal end of input", cut);
        if inside {
            ctx.nontrivial();
            ctx.probe("cut_inside_tree");
        }
    }
    Ok(())
}

// ---- S04 -------------------------------------------------------------------

fn random_line(ctx: &Ctx, doc: &Doc) -> Vec<u8> {
    let foreign: &[&str] = &[
        "",
        "(",
        ")",
        "#BOS 1",
        "#EOS 1",
        "#BOS",
        "#EOS",
        "#BOS 99999999999999999999999",
        "(S",
        "(S (N a))",
        "((",
        "))",
        "(A)",
        "(A a",
        "a b c d e 0",
        "a b c d e 500",
        "a b c d -- 501 x 777",
        "#500 -- NP -- -- 0",
        "#500 -- NP -- -- 500",
        "#500 -- NP -- -- 501",
        "#501 -- NP -- -- 500",
        "#0 -- NP -- -- 500",
        "#0 -- NP -- -- 0",
        "#",
        "#\u{e4} -- NP -- -- 0",
        "%",
        "%%",
        "\u{feff}",
        "1\tword\t_\tX\tX\t_\t0\t_\t_\t_",
    ];
    match ctx.weighted(&[4, 3, 2]) {
        0 => ctx.pick(foreign).as_bytes().to_vec(),
        1 => doc.lines[ctx.below(doc.lines.len())].text.clone(),
        _ => {
            let n = ctx.range(0, 12);
            (0..n)
                .map(|_| loop {
                    let b = ctx.below(256) as u8;
                    if b != b'\n' {
                        break b;
                    }
                })
                .collect()
        }
    }
}

/// Structural damage specific to NEGRA: numbers of parents and nodes.
fn damage_number(ctx: &Ctx, l: &mut Vec<u8>) {
    let runs: Vec<(usize, usize)> = {
        let mut v = Vec::new();
        let mut i = 0;
        while i < l.len() {
            if l[i].is_ascii_digit() {
                let s = i;
                while i < l.len() && l[i].is_ascii_digit() {
                    i += 1;
                }
                v.push((s, i));
            } else {
                i += 1;
            }
        }
        v
    };
    if runs.is_empty() {
        return;
    }
    let (s, e) = *ctx.pick(&runs);
    let new = match ctx.below(6) {
        4 => {
            let x = String::from_utf8(l[s..e].to_vec()).unwrap();
            format!("{}{}", x, ctx.below(10))
        }
        5 if e - s > 1 => String::from_utf8(l[s..e - 1].to_vec()).unwrap(),
        0 => "0".to_string(),
        1 => (500 + ctx.below(6)).to_string(),
        2 => ctx.pick(&["499", "777", "18446744073709551615", "99999999999999999999", "-1", "1"]).to_string(),
        _ => {
            let mut x = String::from_utf8(l[s..e].to_vec()).unwrap();
            let d = ctx.below(10);
            x.pop();
            x.push((b'0' + d as u8) as char);
            x
        }
    };
    l.splice(s..e, new.into_bytes());
}

/// Lines of the document after storage damage, marked if they were touched.
fn damage(ctx: &Ctx, doc: &Doc) -> Vec<(Line, bool)> {
    let negra = doc.layout == Layout::Negra;
    let mut lines: Vec<(Line, bool)> = doc.lines.iter().cloned().map(|l| (l, false)).collect();
    let k = match ctx.weighted(&[5, 4, 2, 1]) {
        0 => 1,
        1 => 2,
        2 => ctx.range(3, 6),
        _ => ctx.range(3, 20),
    };
    for _ in 0..k {
        if lines.is_empty() {
            break;
        }
        let i = ctx.below(lines.len());
        let kind = ctx.weighted(&[4, 3, 3, 3, 4, 3, 2, if negra { 6 } else { 0 }, 2, 2]);
        ctx.event("damage", kind as u64, i as u64);
        match kind {
            0 => {
                // flip / overwrite bytes of a line
                ctx.fault("byte_overwritten");
                let l = &mut lines[i];
                l.1 = true;
                let n = ctx.range(1, 3);
                for _ in 0..n {
                    if l.0.text.is_empty() {
                        break;
                    }
                    let p = ctx.below(l.0.text.len());
                    let b = match ctx.below(4) {
                        0 => *ctx.pick(b"() #%=-:\t0"),
                        1 => l.0.text[p] ^ (1 << ctx.below(8)),
                        _ => ctx.below(256) as u8,
                    };
                    if b == b'\n' {
                        l.0.text[p] = b' ';
                    } else {
                        l.0.text[p] = b;
                    }
                }
            }
            1 => {
                ctx.fault("line_lost");
                lines.remove(i);
            }
            2 => {
                ctx.fault("line_duplicated");
                let mut l = lines[i].clone();
                l.1 = true;
                lines.insert(i + 1, l);
            }
            3 => {
                ctx.fault("lines_swapped");
                let j = ctx.below(lines.len());
                if i != j {
                    lines.swap(i, j);
                    lines[i].1 = true;
                    lines[j].1 = true;
                }
            }
            4 => {
                ctx.fault("foreign_line");
                let text = random_line(ctx, doc);
                lines.insert(
                    i,
                    (
                        Line {
                            text,
                            tag: LineTag::Other,
                        },
                        true,
                    ),
                );
            }
            5 => {
                // lost bytes
                ctx.fault("bytes_lost");
                let l = &mut lines[i];
                l.1 = true;
                if !l.0.text.is_empty() {
                    let p = ctx.below(l.0.text.len());
                    let n = ctx.range(1, 6).min(l.0.text.len() - p);
                    l.0.text.drain(p..p + n);
                }
            }
            6 => {
                // line ends: joined or split
                if ctx.chance(1, 2) && i + 1 < lines.len() {
                    ctx.fault("lines_joined");
                    let n = lines.remove(i + 1);
                    lines[i].0.text.extend(n.0.text);
                    lines[i].1 = true;
                } else {
                    ctx.fault("line_split");
                    let p = ctx.below(lines[i].0.text.len() + 1);
                    let rest = lines[i].0.text.split_off(p);
                    lines[i].1 = true;
                    lines.insert(
                        i + 1,
                        (
                            Line {
                                text: rest,
                                tag: LineTag::Other,
                            },
                            true,
                        ),
                    );
                }
            }
            7 => {
                ctx.fault("number_altered");
                let l = &mut lines[i];
                l.1 = true;
                damage_number(ctx, &mut l.0.text);
            }
            8 => {
                // a block of lines overwritten with a block from elsewhere or zeros
                ctx.fault("block_overwritten");
                let n = ctx.range(1, 5).min(lines.len() - i);
                let j = ctx.below(lines.len());
                let zero = ctx.chance(1, 3);
                for x in 0..n {
                    let text = if zero {
                        vec![0; lines[i + x].0.text.len()]
                    } else {
                        lines[(j + x) % lines.len()].0.text.clone()
                    };
                    lines[i + x].0.text = text;
                    lines[i + x].1 = true;
                }
            }
            _ => {
                // a span of lines lost
                ctx.fault("block_lost");
                let n = ctx.range(1, 8).min(lines.len() - i);
                lines.drain(i..i + n);
            }
        }
    }
    lines
}

pub fn s04(ctx: &Ctx) -> Res {
    let mut doc = draw_doc(ctx, false);
    let negra = doc.layout == Layout::Negra;
    let lines = damage(ctx, &doc);
    // which trees are guaranteed to survive
    let mut per_item: Vec<Vec<usize>> = vec![Vec::new(); doc.items.len()];
    for (pos, (l, dmg)) in lines.iter().enumerate() {
        if let (LineTag::Tree(i) | LineTag::Last(i), false) = (l.tag, *dmg) {
            per_item[i].push(pos);
        }
    }
    let count = |i: usize| {
        doc.lines
            .iter()
            .filter(|l| matches!(l.tag, LineTag::Tree(j) | LineTag::Last(j) if j == i))
            .count()
    };
    let whole: Vec<bool> = (0..doc.items.len())
        .map(|i| {
            let p = &per_item[i];
            p.len() == count(i) && p.windows(2).all(|w| w[1] == w[0] + 1)
        })
        .collect();
    let mut must: Vec<(usize, usize)> = Vec::new();
    for i in 0..doc.items.len() {
        if !whole[i] {
            continue;
        }
        let s = per_item[i][0];
        let ok = match doc.layout {
            Layout::Single(_) => true,
            Layout::Negra => {
                // everything between the end of the preceding sentence (or the
                // beginning) and this sentence is undamaged as well
                let from = if i == 0 {
                    Some(0)
                } else if whole[i - 1] && per_item[i - 1].last().unwrap() < &s {
                    Some(per_item[i - 1].last().unwrap() + 1)
                } else {
                    None
                };
                match from {
                    Some(f) => lines[f..s].iter().all(|l| !l.1 && l.0.tag == LineTag::Other),
                    None => false,
                }
            }
            _ => false,
        };
        if ok {
            must.push((s, i));
        }
    }
    must.sort();
    let must: Vec<&Canon> = must.iter().map(|x| &doc.items[x.1].canon).collect();
    let raw: Vec<Line> = lines.into_iter().map(|l| l.0).collect();
    doc.bytes = join_lines(&raw, doc.eol, doc.last_eol);
    ctx.note(|| format!("damaged document, {} trees guaranteed\n{}", must.len(), show_doc(&doc.bytes)));
    let n_lines = doc.bytes.iter().filter(|b| **b == b'\n').count() + 1;
    let (opened, closed, single) = account(&doc);
    let data = Arc::new(doc.bytes.clone());
    let plan = ReadPlan::draw(ctx);
    let (src, _) = source(ctx, &data, &plan, None);
    let mut it = open(doc.layout, src);
    let mut next = 0;
    let mut items = 0;
    let mut errors = 0;
    loop {
        match next_item(&mut it)? {
            None => break,
            Some(Ok(t)) => {
                let o = observe_wf(&t, "tree from a damaged stream")?;
                if next < must.len() && *must[next] == o.canon {
                    next += 1;
                }
                ctx.probe("tree_from_damaged_stream");
            }
            Some(Err(_)) => {
                errors += 1;
                ctx.probe("error_from_damaged_stream")
            }
        }
        items += 1;
        ensure!(items <= n_lines + 2, "no-end", "{} items from {} lines", items, n_lines);
    }
    ensure!(
        next == must.len(),
        "lost",
        "only {} of {} undamaged trees were yielded",
        next,
        must.len()
    );
    // nothing disappears without a trace
    if negra {
        // an error covers at most the sentence that was open and the one whose
        // opening line it reports
        ensure!(
            items - errors + 2 * errors >= opened,
            "silent",
            "{} trees and {} errors for {} opened sentences",
            items - errors,
            errors,
            opened
        );
        ensure!(items >= closed, "silent", "{} items for {} closed sentences", items, closed);
    } else if matches!(doc.layout, Layout::Single(_)) {
        ensure!(items >= single, "silent", "{} items for {} lines", items, single);
    }
    Ok(())
}

/// Lines of a damaged stream that have to be accounted for: opening and closing
/// lines of NEGRA sentences, lines of a stream with one tree per line.
fn account(doc: &Doc) -> (usize, usize, usize) {
    let (mut opened, mut closed, mut single) = (0, 0, 0);
    for l in doc.bytes.split(|b| *b == b'\n') {
        let Ok(l) = std::str::from_utf8(l) else { continue };
        opened += l.trim().starts_with("#BOS") as usize;
        closed += l.trim().starts_with("#EOS") as usize;
        single += (!l.trim().is_empty() && !l.starts_with('%')) as usize;
    }
    (opened, closed, single)
}

// ---- S06 -------------------------------------------------------------------

/// What a stretch of a damaged stream says.
struct Said {
    /// lines of the stretch
    from: usize,
    to: usize,
    /// the tree, without labels if a label has more separators than the format
    /// gives a meaning to
    tree: Option<(Canon, bool)>,
}

/// Without everything that hangs on how labels are taken apart.
fn shape(c: &Canon) -> Canon {
    let mut c = c.strip(|n| {
        n.label.clear();
        n.edge = None;
        if !n.term {
            n.feats.clear();
        }
    });
    c.sec.clear();
    c
}

/// Whether a label has separators in places without a meaning.
fn odd_label(l: &str, fmt: Fmt) -> bool {
    match fmt {
        Fmt::TueBa => {
            let tag = l.split(':').next().unwrap();
            l.ends_with(':') || tag.ends_with('=')
        }
        Fmt::Ptb => l.starts_with('-') || l.ends_with('-'),
        Fmt::Negra => l.ends_with('=') || l.starts_with('='),
        _ => false,
    }
}

fn say_bracket(text: &str, fmt: Fmt) -> Option<(Canon, bool)> {
    let text = text.replace('\r', " ");
    let m = crate::text::parse_bracket(&text, fmt).ok()?;
    let odd = text
        .split('(')
        .skip(1)
        .any(|s| odd_label(s.trim_start_matches([' ', '\n']).split([' ', '\n', ')']).next().unwrap(), fmt));
    Some((crate::text::as_read(&m, fmt, None), odd))
}

/// The trees that a (damaged) stream describes, in order of their last line.
fn said(doc: &Doc) -> Vec<Said> {
    let mut raw: Vec<&[u8]> = doc.bytes.split(|b| *b == b'\n').collect();
    if raw.last().map(|l| l.is_empty()).unwrap_or(false) {
        raw.pop();
    }
    let lines: Vec<Option<&str>> = raw
        .iter()
        .map(|l| std::str::from_utf8(l).ok().map(|l| l.strip_suffix('\r').unwrap_or(l)))
        .collect();
    let mut out = Vec::new();
    match doc.layout {
        Layout::Single(f) => {
            for (i, l) in lines.iter().enumerate() {
                if l.map(|l| l.starts_with('%')).unwrap_or(false) {
                    continue;
                }
                let tree = l.and_then(|l| say_bracket(l, f));
                out.push(Said { from: i, to: i, tree });
            }
        }
        Layout::Multi(f) => {
            for from in 0..lines.len() {
                let mut depth = 0i64;
                let mut text = String::new();
                for to in from..lines.len() {
                    let Some(l) = lines[to] else { break };
                    text.push_str(l);
                    text.push('\n');
                    depth += l.matches('(').count() as i64 - l.matches(')').count() as i64;
                    if depth < 0 || (to == from && (depth == 0 && l.trim().is_empty())) {
                        break;
                    }
                    if depth == 0 {
                        if let Some(t) = say_bracket(&text, f) {
                            out.push(Said { from, to, tree: Some(t) });
                        }
                        break;
                    }
                }
            }
            out.sort_by_key(|s| (s.to, s.from));
        }
        _ => {
            let mut from = None;
            for (i, l) in lines.iter().enumerate() {
                let Some(l) = l else {
                    from = None;
                    continue;
                };
                if l.trim().starts_with("#BOS") {
                    from = Some(i);
                } else if l.trim().starts_with("#EOS") {
                    if let Some(s) = from.take() {
                        let block: Vec<&str> = lines[s..=i].iter().map(|l| l.unwrap()).collect();
                        if let Ok((m, odd)) = crate::text::parse_sentence(&block) {
                            out.push(Said {
                                from: s,
                                to: i,
                                tree: Some((crate::text::as_read(&m, Fmt::Negra, None), odd)),
                            });
                        }
                    }
                }
            }
        }
    }
    out
}

fn says(s: &Said, got: &Canon) -> bool {
    match &s.tree {
        Some((c, false)) => c == got,
        Some((c, true)) => shape(c) == shape(got),
        None => false,
    }
}

/// A reader yields only what the damaged text says.
pub fn s06(ctx: &Ctx) -> Res {
    let mut doc = draw_doc(ctx, false);
    let raw: Vec<Line> = damage(ctx, &doc).into_iter().map(|l| l.0).collect();
    doc.bytes = join_lines(&raw, doc.eol, doc.last_eol);
    ctx.note(|| format!("damaged document\n{}", show_doc(&doc.bytes)));
    let said = said(&doc);
    let n_lines = doc.bytes.iter().filter(|b| **b == b'\n').count() + 1;
    let data = Arc::new(doc.bytes.clone());
    let plan = ReadPlan::draw(ctx);
    let (src, _) = source(ctx, &data, &plan, None);
    let mut it = open(doc.layout, src);
    let mut items: Vec<Option<Canon>> = Vec::new();
    while let Some(i) = next_item(&mut it)? {
        items.push(match i {
            Ok(t) => {
                ctx.probe("tree_from_damaged_stream");
                Some(observe_wf(&t, "tree from a damaged stream")?.canon)
            }
            Err(_) => {
                ctx.probe("error_from_damaged_stream");
                None
            }
        });
        ensure!(items.len() <= n_lines + 2, "no-end", "{} items from {} lines", items.len(), n_lines);
    }
    if let Layout::Single(_) = doc.layout {
        // line by line
        ensure!(
            items.len() == said.len(),
            "items",
            "{} items from {} lines that are no comments",
            items.len(),
            said.len()
        );
        for (i, (s, got)) in said.iter().zip(&items).enumerate() {
            match got {
                Some(got) => {
                    ensure!(s.tree.is_some(), "accepted", "line {} is no tree but was read as\n{:?}", s.from + 1, got);
                    ensure!(says(s, got), "other-tree", "line {} was read as\n{:?}", s.from + 1, got);
                }
                None => ensure!(s.tree.is_none(), "refused", "item {} (line {}) is a tree but was refused", i, s.from + 1),
            }
        }
        return Ok(());
    }
    let mut covered = vec![false; n_lines];
    let mut at = 0;
    for got in items.iter().flatten() {
        let hit = said.iter().find(|s| s.from >= at && says(s, got));
        let Some(s) = hit else {
            return fail(
                "other-tree",
                format!("no lines behind line {} describe the tree that was read\n{:?}", at, got),
            );
        };
        if said.iter().any(|x| x.from < s.from && x.to >= s.from && x.to < s.to) {
            ctx.probe("damage_beside_tree");
        }
        covered[s.from..=s.to].iter_mut().for_each(|c| *c = true);
        at = s.to + 1;
    }
    if matches!(doc.layout, Layout::Multi(_)) && items.iter().all(|i| i.is_some()) {
        for (i, l) in doc.bytes.split(|b| *b == b'\n').enumerate() {
            let blank = l.iter().all(|b| b.is_ascii_whitespace());
            ensure!(
                covered[i] || blank || l.starts_with(b"%"),
                "silent",
                "line {} belongs to no tree, but there was no error",
                i + 1
            );
        }
    }
    Ok(())
}

// ---- S05 -------------------------------------------------------------------

/// A reader on a borrowed stream.
fn open_ref<'a>(layout: Layout, src: &'a mut Source) -> Box<dyn Iterator<Item = Result<Tree, Error>> + 'a> {
    match layout {
        Layout::Negra => Box::new(NegraReader::new(src)),
        Layout::Single(f) => Box::new(PTBReader::new(src, f.lib(), PTBLineFormat::SingleLine)),
        Layout::Multi(f) => Box::new(PTBReader::new(src, f.lib(), PTBLineFormat::MultiLine)),
        Layout::Tags(_) => unreachable!("not a reader of lumberjack"),
    }
}

/// One stream, read by one reader after the other.
fn handover(ctx: &Ctx, doc: &Doc) -> Res {
    let data = Arc::new(doc.bytes.clone());
    let plan = ReadPlan::draw(ctx);
    let (mut src, _) = source(ctx, &data, &plan, None);
    let mut i = 0;
    ctx.nontrivial();
    while i < doc.items.len() {
        let take = ctx.range(1, 3).min(doc.items.len() - i);
        let mut it = open_ref(doc.layout, &mut src);
        for _ in 0..take {
            match sut_ok("the reader", || it.next())? {
                Some(Ok(t)) => {
                    let o = observe_wf(&t, "tree")?;
                    compare(i, &doc.items[i].canon, &o.canon, "handover", "stream handed to another reader")?;
                }
                Some(Err(e)) => return fail("handover", format!("stream handed to another reader: error instead of tree {}: {}", i, e)),
                None => return fail("handover", format!("stream handed to another reader: end instead of tree {}", i)),
            }
            i += 1;
        }
    }
    let mut it = open_ref(doc.layout, &mut src);
    match sut_ok("the reader", || it.next())? {
        None => Ok(()),
        _ => fail("handover", "an item behind the last tree"),
    }
}

/// The end of a stream that was cut anywhere.
fn cut_end(ctx: &Ctx, doc: &Doc) -> Res {
    let mut bytes = doc.bytes.clone();
    bytes.truncate(draw_offset(ctx, doc));
    ctx.fault("cut");
    ctx.nontrivial();
    let n = bytes.len();
    let data = Arc::new(bytes);
    let plan = ReadPlan::draw(ctx);
    let (src, stat) = source(ctx, &data, &plan, None);
    let mut it = open(doc.layout, src);
    let mut errors = 0;
    for _ in 0..2 * doc.items.len() + 10 {
        match next_item(&mut it)? {
            Some(Ok(_)) => {}
            Some(Err(_)) => {
                errors += 1;
                ensure!(errors <= 2, "no-end", "more than two errors at the end of a stream cut at {}", n);
            }
            None => {
                for _ in 0..2 {
                    ensure!(next_item(&mut it)?.is_none(), "no-end", "an item behind the end of a stream cut at {}", n);
                }
                let s = stat.lock().unwrap();
                ensure!(s.eof_reads <= 12, "no-end", "{} reads of a stream that ended at {}", s.eof_reads, n);
                return Ok(());
            }
        }
    }
    fail("no-end", format!("no end of a stream cut at {}", n))
}

pub fn s05(ctx: &Ctx) -> Res {
    let doc = draw_doc(ctx, false);
    match ctx.weighted(&[6, 2, 2]) {
        0 => prompt(ctx, &doc),
        1 => handover(ctx, &doc),
        _ => cut_end(ctx, &doc),
    }
}

fn prompt(ctx: &Ctx, doc: &Doc) -> Res {
    let data = Arc::new(doc.bytes.clone());
    let plan = ReadPlan::draw(ctx);
    let (src, stat) = source(ctx, &data, &plan, None);
    let mut it = open(doc.layout, src);
    let stop_after = ctx.below(doc.items.len() + 2);
    let stop_after = if stop_after == 0 { usize::MAX } else { stop_after - 1 };
    for (i, item) in doc.items.iter().enumerate() {
        if i == stop_after {
            // an impatient consumer
            let before = stat.lock().unwrap().calls;
            drop(it);
            let after = stat.lock().unwrap().calls;
            ensure!(before == after, "reads-on", "{} reads after the consumer had stopped", after - before);
            ctx.probe("consumer_stopped_early");
            return Ok(());
        }
        match next_item(&mut it)? {
            Some(Ok(t)) => {
                let o = observe_wf(&t, "tree")?;
                compare(i, &item.canon, &o.canon, "wrong-tree", "promptness")?;
            }
            Some(Err(e)) => return fail("wrong-tree", format!("error instead of tree {}: {}", i, e)),
            None => return fail("wrong-tree", format!("end instead of tree {}", i)),
        }
        let s = stat.lock().unwrap().clone();
        let terminated = item.done > item.text_end;
        if terminated {
            ensure!(
                s.max_start < item.done,
                "late",
                "tree {} was complete at byte {}, but a read was issued after {} bytes had been delivered",
                i,
                item.done,
                s.max_start
            );
            if s.delivered < doc.bytes.len() {
                ctx.probe("yielded_before_rest_arrived");
                ctx.nontrivial();
            }
        }
    }
    let before = stat.lock().unwrap().clone();
    for _ in 0..3 {
        match next_item(&mut it)? {
            None => {}
            Some(Ok(_)) => return fail("wrong-tree", "a tree after the last tree"),
            Some(Err(e)) => return fail("wrong-tree", format!("an error after the last tree: {}", e)),
        }
    }
    let after = stat.lock().unwrap().clone();
    ensure!(
        after.eof_reads - before.eof_reads <= 8,
        "no-end",
        "{} reads of an ended stream for the end of input",
        after.eof_reads - before.eof_reads
    );
    let _ = Fmt::Free;
    Ok(())
}
