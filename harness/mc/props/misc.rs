//! C16 (extremes), C17 (JSON example), C20 (plain-text window), C21 (sample tree and styles).

use super::docs::*;
use super::panes::*;
use super::{Prop, Tier};
use crate::doc::Ctx;
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use once_cell::sync::Lazy;
use partial_pretty_printer as ppp;
use ppp::doc_examples::json::*;
use ppp::doc_examples::tree::{Contents, Tree, TreeCondition, TreeNotation};
use ppp::doc_examples::{BasicStyle, Color};
use ppp::notation_constructors as nc;
use ppp::pane::{PlainText, PrettyWindow};
use ppp::{PrettyDoc, Style};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub fn universe(
    name: String,
    describe: String,
    body: impl Fn(&mut Chooser, &mut Stats) -> Verdict + Send + Sync + 'static,
) -> Universe {
    Universe { name, describe, body: Arc::new(body) }
}

// ---- C16: extremes ----------------------------------------------------------------------------

static STRINGS: Lazy<Mutex<HashMap<(char, usize), S>>> = Lazy::new(|| Mutex::new(HashMap::new()));
/// `n` columns of text.
fn cols(c: char, n: usize) -> S {
    let mut m = STRINGS.lock().unwrap();
    *m.entry((c, n)).or_insert_with(|| {
        let k = if c == '信' { n / 2 } else { n };
        let mut s: String = std::iter::repeat(c).take(k).collect();
        if c == '信' && n % 2 == 1 {
            s.push('.');
        }
        Box::leak(s.into_boxed_str())
    })
}

const LENS: [usize; 11] = [1, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 131071, 131072, 131073];
const LENS_FEW: [usize; 6] = [2, 32768, 65534, 65535, 65536, 131072];

const N_WIDE: usize = 14;
fn wide_doc(k: usize, a: S, b: S, c: S) -> (Proto, usize) {
    let leaf = |n: N| Proto::branch(n, vec![]);
    let l = lit;
    match k {
        0 => (leaf(alt(l(a), l("s"))), 1),
        1 => (leaf(cat(l(a), alt(l(b), cat(N::Nl, l("s"))))), 2),
        2 => (leaf(alt(cat(l(a), l(b)), cats(vec![l("s"), N::Nl, l(b)]))), 2),
        3 => (leaf(ind(a, cat(N::Nl, alt(l(b), N::Empty)))), 2),
        4 => (leaf(cat(alt(l(a), l("s")), l(b))), 2),
        5 => (leaf(ind(a, inds(b, 0, cats(vec![l("h"), N::Nl, alt(l(c), N::Nl), l("t")])))), 3),
        6 => (leaf(cats(vec![l(a), l(b), alt(cat(l(c), N::Eol), N::Empty)])), 3),
        7 => (Proto::branch(alt(cat(child(0), l(b)), cats(vec![l("<"), N::Nl, child(0)])), vec![t(a)]), 2),
        8 => (Proto::branch(template(1), vec![t(a), t(b), t(c)]), 3),
        9 => (Proto::branch(template(0), vec![t(a), t(b)]), 2),
        // an option whose first line is empty, after text that may already be too wide
        10 => (leaf(cat(l(a), alt(cat(N::Nl, l("first")), cat(N::Nl, l("second"))))), 1),
        11 => (leaf(ind(a, cat(N::Nl, alt(cat(N::Nl, l("first")), cat(N::Nl, l("second")))))), 1),
        12 => (leaf(cats(vec![l(a), l(b), l(c), alt(l("x"), N::Nl), l("y")])), 3),
        13 => (
            Proto::branch(
                cats(vec![child(0), child(1), alt(N::Empty, N::Nl), flat(alt(l(c), N::Nl)), N::Nl, child(0)]),
                vec![t(a), Proto::text(ind("> ", cat(N::Text, alt(l("z"), N::Nl))), b)],
            ),
            3,
        ),
        _ => unreachable!(),
    }
}

fn want_width(l: &OLine) -> u16 {
    l.iter().map(|s| width_of(s.s)).sum::<u64>().min(65535) as u16
}

fn take_line<'d, D: PrettyDoc<'d, Style = Sty>>(l: &ppp::Line<'d, D>) -> Result<OLine<'d>, String> {
    let ol = oline(l);
    if l.width() != want_width(&ol) {
        return Err(format!("width() of a line is {}, expected {}", l.width(), want_width(&ol)));
    }
    if !ol.iter().all(|s| s.w as u64 == width_of(s.s).min(65535)) {
        return Err("width of a segment is wrong".to_string());
    }
    Ok(ol)
}

/// Layout, focus position and reported widths, against the model (which counts in 64 bits).
fn check_wide(root: &Node, width: u16, st: &mut Stats) -> Result<(), String> {
    let e = elaborate(root, None);
    let laid = lay_out(root, e, width as u64);
    if laid.err.is_some() {
        return Ok(());
    }
    st.add("states", 1);
    st.add("first options taken", laid.took.0);
    st.add("second options taken", laid.took.1);
    let lens: Vec<u64> = laid.lines.iter().map(|l| l.iter().map(|s| width_of(s.s)).sum()).collect();
    st.outcome(hash_of(&(&lens, width)));
    let ctx = Ctx::new();
    let d = refs(&ctx, root);
    for path in all_paths(root) {
        let node = node_at(root, &path).unwrap();
        let mut targets = vec![Target::Start, Target::End];
        if let Some(t) = node.text {
            let n = t.chars().count();
            targets.push(Target::Text(n / 2));
            targets.push(Target::Text(n));
            targets.push(Target::Text(usize::MAX));
        }
        for target in targets {
            let fail = |m: String| format!("path {:?}, target {:?}: {}", path, target, m);
            st.add("runs", 1);
            let at = match laid.expect(&path, target) {
                Expect::At(at) => at,
                _ => continue,
            };
            let (up, focused, down) = match ppp::pretty_print(d, width, &path, target.real(), None) {
                Ok(x) => x,
                Err(e) => return Err(fail(format!("error {:?}", e))),
            };
            let want = want_width;
            let left: OLine = focused.left_segments.iter().map(seg).collect();
            let right: OLine = focused.right_segments.iter().map(seg).collect();
            let mut both = left.clone();
            both.extend(right.iter().copied());
            for (what, got, line) in [
                ("left_width", focused.left_width(), &left),
                ("right_width", focused.right_width(), &right),
                ("width", focused.width(), &both),
            ] {
                if got != want(line) {
                    return Err(fail(format!("{} of the focused line is {}, expected {}", what, got, want(line))));
                }
            }
            let mut o = Out { above: vec![], left, right, below: vec![], above_err: None, below_err: None };
            for l in up {
                let l = l.map_err(|e| fail(format!("error {:?}", e)))?;
                o.above.insert(0, take_line(&l).map_err(fail)?);
            }
            for l in down {
                let l = l.map_err(|e| fail(format!("error {:?}", e)))?;
                o.below.push(take_line(&l).map_err(fail)?);
            }
            let (l, c) = cmp_all(&o, &laid, true).map_err(fail)?;
            if (l, c) != (at.line, at.col) {
                return Err(fail(format!(
                    "focus at line {} char {}, expected line {} char {}",
                    l, c, at.line, at.col
                )));
            }
        }
    }
    st.add("transitions", ctx.calls.get());
    Ok(())
}

fn u_wide(lens: &'static [usize], widths: &'static [u16], templates: &'static [usize], wide_chars: bool) -> Universe {
    universe(
        format!("wide-{}x{}{}", templates.len(), lens.len(), if wide_chars { "-full" } else { "" }),
        format!(
            "{} shapes of documents whose texts and indentation strings are {:?} columns long ({}), at widths {:?}, focused at start, end and within each text",
            templates.len(), lens, if wide_chars { "full-width characters" } else { "ASCII" }, widths
        ),
        move |ch, st| {
            let k = templates[ch.pick(templates.len())];
            let (_, arity) = wide_doc(k, "", "", "");
            let c = if wide_chars { '信' } else { 'x' };
            let mut s = [""; 3];
            let mut n = [0; 3];
            for i in 0..arity {
                n[i] = lens[ch.pick(lens.len())];
                s[i] = cols(c, n[i]);
            }
            let (p, _) = wide_doc(k, s[0], s[1], s[2]);
            let width = widths[ch.pick(widths.len())];
            let root = match p.build(false) {
                Some(r) => r,
                None => return Verdict::Skip,
            };
            let show = || format!("width {}, texts of {:?} columns in\n{}", width, &n[..arity], p.show());
            match guarded(|| check_wide(&root, width, st)) {
                Err(m) if m.contains("harness:") => panic!("{}", m),
                Err(m) => Verdict::Bad(format!("panic: {}\n{}", m, show())),
                Ok(Err(m)) => Verdict::Bad(format!("{}\n{}", m, show())),
                Ok(Ok(())) => {
                    if st.want_sample {
                        st.samples.push(show());
                    }
                    Verdict::Ok
                }
            }
        },
    )
}

/// Many pieces, each of moderate size, that add up.
fn u_sums() -> Universe {
    universe(
        "sums".into(),
        "lines made of 2..6 texts or indentation strings of 20000, 32768 or 65535 columns, followed by a choice; widths 0, 100, 34464, 65535".into(),
        |ch, st| {
            let n = 2 + ch.pick(5);
            let s = cols('x', [20000, 32768, 65535][ch.pick(3)]);
            let mode = ch.pick(4);
            let width = [0u16, 100, 34464, 65535][ch.pick(4)];
            let tail = cat(alt(lit("short"), N::Nl), lit("!"));
            let p = match mode {
                0 => Proto::branch(cats((0..n).map(|_| lit(s)).chain([tail]).collect()), vec![]),
                1 => {
                    let mut x = cat(N::Nl, tail);
                    for _ in 0..n {
                        x = ind(s, x);
                    }
                    Proto::branch(x, vec![])
                }
                2 => Proto::branch(
                    alt(cats((0..n).map(|_| child(0)).collect()), tail),
                    vec![t(s)],
                ),
                _ => Proto::branch(template(1), (0..n).map(|_| t(s)).collect()),
            };
            let root = match p.build(false) {
                Some(r) => r,
                None => return Verdict::Skip,
            };
            let show = || format!("width {}, {} texts of {} columns in\n{}", width, n, s.len(), p.show());
            match guarded(|| check_wide(&root, width, st)) {
                Err(m) if m.contains("harness:") => panic!("{}", m),
                Err(m) => Verdict::Bad(format!("panic: {}\n{}", m, show())),
                Ok(Err(m)) => Verdict::Bad(format!("{}\n{}", m, show())),
                Ok(Ok(())) => Verdict::Ok,
            }
        },
    )
}

/// Every small notation, with its texts and indentation strings blown up.
fn u_wide_grammar(name: &'static str, gr: Gram, max: usize, lens: &'static [(usize, usize)], widths: &'static [u16]) -> Universe {
    fn blow_up(n: &N, text: S, indent: S) -> N {
        let f = |n: &N| std::rc::Rc::new(blow_up(n, text, indent));
        match n {
            N::Lit("a") => N::Lit(text),
            N::Indent(_, l, a) => N::Indent(indent, *l, f(a)),
            N::Flat(a) => N::Flat(f(a)),
            N::Cat(a, b) => N::Cat(f(a), f(b)),
            N::Alt(a, b) => N::Alt(f(a), f(b)),
            n => n.clone(),
        }
    }
    universe(
        format!("wide-{}<={}", name, max),
        format!(
            "every notation of at most {} operators over the {} grammar with a text, its text \"a\" and its indentation string replaced by ones of {:?} columns, at widths {:?}, focused at start and end",
            max, name, lens, widths
        ),
        move |ch, st| {
            let n = match gr.gen_upto(ch, max) {
                Some(n) => n,
                None => return Verdict::Skip,
            };
            if !crate::model::show(&n).contains("\"a\"") {
                return Verdict::Skip;
            }
            let (t, i) = lens[ch.pick(lens.len())];
            let width = widths[ch.pick(widths.len())];
            let p = Proto::branch(blow_up(&n, cols('x', t), cols('i', i)), vec![]);
            let root = match p.build(false) {
                Some(r) => r,
                None => return Verdict::Skip,
            };
            let show = || format!("width {}, texts of {} and indentation strings of {} columns in {}", width, t, i, crate::model::show(&n));
            match guarded(|| check_wide(&root, width, st)) {
                Err(m) if m.contains("harness:") => panic!("{}", m),
                Err(m) => Verdict::Bad(format!("panic: {}\n{}", m, show())),
                Ok(Err(m)) => Verdict::Bad(format!("{}\n{}", m.chars().take(300).collect::<String>(), show())),
                Ok(Ok(())) => {
                    if st.want_sample {
                        st.samples.push(show());
                    }
                    Verdict::Ok
                }
            }
        },
    )
}

/// Ordinary documents at extreme widths.
fn u_ordinary(maxk: usize) -> Universe {
    over(
        sp_doc2(maxk, N_LEAF, vec![0, 1, 9999, 10000, 32767, 32768, 65534, 65535]),
        |case, _ch, st| check_wide(case.root, case.width, st),
    )
}

/// Large documents: many children.
fn u_many(ns: &'static [usize], widths: &'static [u16]) -> Universe {
    universe(
        format!("many-{:?}", ns),
        format!(
            "every list template over {:?} children (leaves of two shapes alternating), at widths {:?}, focused at the first, middle and last child",
            ns, widths
        ),
        move |ch, st| {
            let tm = [0usize, 1, 2, 3, 7, 4, 11][ch.pick(7)];
            let n = ns[ch.pick(ns.len())];
            let (a, b) = [(0usize, 1usize), (1, 4), (0, 3), (8, 5)][ch.pick(4)];
            let width = widths[ch.pick(widths.len())];
            let p = Proto::branch(template(tm), (0..n).map(|i| leaf(if i % 2 == 0 { a } else { b })).collect());
            let root = match p.build(false) {
                Some(r) => r,
                None => return Verdict::Skip,
            };
            let e = elaborate(&root, None);
            let laid = lay_out(&root, e, width as u64);
            st.add("states", 1);
            if laid.err.is_some() {
                st.add("layouts with errors", 1);
                return Verdict::Ok;
            }
            st.outcome(hash_of(&laid.lines.len()));
            let show = || format!("width {}, {} children (leaves {} and {}) of template {}", width, n, a, b, tm);
            for (path, target) in [
                (vec![], Target::Start),
                (vec![], Target::End),
                (vec![n / 2], Target::Start),
                (vec![n - 1], Target::End),
            ] {
                let ctx = Ctx::new();
                st.add("runs", 1);
                let r = guarded(|| -> Result<(), String> {
                    let o = print_all(refs(&ctx, &root), width, &path, target, None)
                        .map_err(|e| format!("error {:?}", e))?;
                    let (l, c) = cmp_all(&o, &laid, true)?;
                    match laid.expect(&path, target) {
                        Expect::At(at) if (at.line, at.col) != (l, c) => {
                            Err(format!("focus at {:?}, expected {:?}", (l, c), at))
                        }
                        _ => Ok(()),
                    }
                });
                st.add("transitions", ctx.calls.get());
                match r {
                    Err(m) if m.contains("harness:") => panic!("{}", m),
                    Err(m) => return Verdict::Bad(format!("panic: {}\n{}", m, show())),
                    Ok(Err(m)) => {
                        let m: String = m.chars().take(600).collect();
                        return Verdict::Bad(format!("path {:?}, {:?}: {}\n{}", path, target, m, show()));
                    }
                    Ok(Ok(())) => (),
                }
            }
            Verdict::Ok
        },
    )
}

fn scene_verdict(sc: &Scene, aspects: &[Aspect], st: &mut Stats) -> Verdict {
    for a in aspects {
        match guarded(|| check_scene(sc, *a, st)) {
            Err(m) if m.contains("harness:") => panic!("{}", m),
            Err(m) => return Verdict::Bad(format!("panic: {}\n{}", m, sc.show())),
            Ok(Ok(false)) => return Verdict::Skip,
            Ok(Ok(true)) => (),
            Ok(Err(m)) => return Verdict::Bad(format!("{}\n{}", m, sc.show())),
        }
    }
    if st.want_sample {
        st.samples.push(sc.show());
    }
    Verdict::Ok
}

/// Windows as wide as the width type allows.
fn u_huge_windows(lens: &'static [usize]) -> Universe {
    universe(
        format!("huge-windows-{}", lens.len()),
        format!(
            "windows 65533..65535 columns wide and 1 or 2 rows high, with fills, documents (texts of {:?} columns), and splits of them, focused at start, end and within the text",
            lens
        ),
        move |ch, st| {
            let w = [65535u16, 65534, 65533][ch.pick(3)];
            let h = 1 + ch.pick(2) as u32;
            let kind = ch.pick(9);
            let mut contents = vec![];
            let mut doc = |ch: &mut Chooser| -> P {
                let s = cols(['x', '信'][ch.pick(2)], lens[ch.pick(lens.len())]);
                let n = s.chars().count();
                let target = [Target::Start, Target::End, Target::Text(n / 2), Target::Text(n - 1)][ch.pick(4)];
                let strat = [Strat::Full, Strat::Fixed(65535), Strat::NoMore(65535), Strat::NoMore(7)][ch.pick(4)];
                contents.push(Some(Content {
                    root: t(s).build(false).unwrap(),
                    opts: Opts { path: vec![], target, height: 1.0, strat, set_focus: true },
                }));
                P::Doc(contents.len() - 1)
            };
            let p = match kind {
                0 => P::Fill('a'),
                1 => P::Fill('信'),
                2 => doc(ch),
                3 => P::Horz(vec![(Sz::Fixed(65535), P::Fill('a')), (Sz::Fixed(65535), P::Fill('b'))]),
                4 => P::Horz(vec![(Sz::Prop(1), P::Fill('a')), (Sz::Prop(65535), P::Fill('信')), (Sz::Prop(3), P::Fill('c'))]),
                5 => P::Horz(vec![(Sz::Fixed(65530), P::Fill('a')), (Sz::Prop(1), doc(ch))]),
                6 => P::Horz(vec![(Sz::Dyn, doc(ch)), (Sz::Prop(1), P::Fill('信'))]),
                7 => P::Vert(vec![(Sz::Dyn, doc(ch)), (Sz::Prop(1), P::Fill('b'))]),
                _ => P::Horz(vec![(Sz::Prop(1), P::Fill('a')), (Sz::Dyn, doc(ch)), (Sz::Fixed(usize::MAX), P::Fill('c'))]),
            };
            let sc = Scene { pane: &p, contents: &contents, sty: Sty::tok(60), w, h };
            scene_verdict(&sc, &[Aspect::Content], st)
        },
    )
}

/// Sizes and weights as large as their types allow.
fn u_huge_sizes(n: usize) -> Universe {
    const M: usize = usize::MAX;
    const SIZES: [Sz; 14] = [
        Sz::Prop(1),
        Sz::Prop(M),
        Sz::Prop(M - 1),
        Sz::Prop(M / 2),
        Sz::Prop(M / 3),
        Sz::Prop(M / 7 + 1),
        Sz::Prop(1 << 63),
        Sz::Prop(1 << 32),
        Sz::Prop(0),
        Sz::Fixed(M),
        Sz::Fixed(M - 1),
        Sz::Fixed(1 << 32),
        Sz::Fixed(1 << 16),
        Sz::Fixed(1),
    ];
    universe(
        format!("huge-sizes-{}", n),
        format!(
            "splits into up to {} panes with sizes and weights from {:?}, in every space of 0..12 columns or rows, and 1000 columns",
            n, SIZES
        ),
        move |ch, st| {
            let horz = ch.pick(2) == 0;
            let k = 1 + ch.pick(n);
            let space = [0u16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 1000][ch.pick(14)];
            let v: Vec<(Sz, P)> = (0..k)
                .map(|i| (SIZES[ch.pick(SIZES.len())], P::Fill(['a', 'b', 'c', 'd'][i])))
                .collect();
            let p = if horz { P::Horz(v) } else { P::Vert(v) };
            let (w, h) = if horz { (space, 1) } else { (1, space as u32) };
            let sc = Scene { pane: &p, contents: &[], sty: Sty::NONE, w, h };
            scene_verdict(&sc, &[Aspect::Cells], st)
        },
    )
}

/// Splits of windows higher than 16 bits.
fn u_tall(maxk: usize, lean: bool) -> Universe {
    const ROWS: [&str; 3] = ["a", "bc", "d"];
    universe(
        format!("tall-{}{}", maxk, if lean { "-lean" } else { "" }),
        format!(
            "windows 1 (full set: or 2) columns wide and 65537 or 70001 (65535, 65536, 131073) rows high, split vertically into up to {} panes: of weight 1 (3), fixed of 3 or 65536 (65535, 65540) rows, dynamic; each a fill, a document of 3 lines, or one of 66000 lines, focused at the start or the end; {} set",
            maxk, if lean { "reduced" } else { "full" }
        ),
        move |ch, st| {
            let h = [65537, 70001, 65535u32, 65536, 131073][ch.pick(if lean { 2 } else { 5 })];
            let w = 1 + ch.pick(if lean { 1 } else { 2 }) as u16;
            let k = 1 + ch.pick(maxk);
            let mut contents = vec![];
            let mut v = vec![];
            for i in 0..k {
                let z = ch.pick(if lean { 4 } else { 7 });
                let size = [
                    Sz::Dyn,
                    Sz::Prop(1),
                    Sz::Fixed(3),
                    Sz::Fixed(65536),
                    Sz::Prop(3),
                    Sz::Fixed(65535),
                    Sz::Fixed(65540),
                ][z];
                let d = if z == 0 { 1 + ch.pick(2) } else { ch.pick(3) };
                if d == 0 {
                    v.push((size, P::Fill(['x', 'y', 'z'][i % 3])));
                    continue;
                }
                let n = if d == 1 { 3 } else { 66000 };
                let root = Proto::branch(template(2), (0..n).map(|j| t(ROWS[j % 3])).collect());
                let target = if lean { d - 1 } else { ch.pick(2) };
                let target = [Target::Start, Target::End][target];
                contents.push(Some(Content {
                    root: root.build(false).expect("harness: tall"),
                    opts: Opts { path: vec![], target, height: 1.0, strat: Strat::Full, set_focus: true },
                }));
                v.push((size, P::Doc(contents.len() - 1)));
            }
            let p = P::Vert(v);
            let sc = Scene { pane: &p, contents: &contents, sty: Sty::NONE, w, h };
            match scene_verdict(&sc, &[Aspect::Content], st) {
                Verdict::Bad(m) => {
                    // (the picture has too many rows)
                    let m: String = m.chars().take(400).collect();
                    Verdict::Bad(format!("{}...\n{}x{} {:?}", m, w, h, p))
                }
                v => v,
            }
        },
    )
}

/// Windows as high as the height type allows, with documents of their own size.
fn u_huge_heights(maxk: usize) -> Universe {
    universe(
        format!("huge-heights-{}", maxk),
        format!("windows 2^24+1, 2^32-2 and 2^32-1 rows high, split vertically into up to {} panes: dynamic documents (8 shapes, focus heights 0, 0.3, 0.5, 1), fixed fills", maxk),
        move |ch, st| {
            let h = [u32::MAX, u32::MAX - 1, (1 << 24) + 1][ch.pick(3)];
            let w = [12u16, 5][ch.pick(2)];
            let k = 1 + ch.pick(maxk);
            let mut contents = vec![];
            let mut v = vec![];
            let mut rows = 0u64;
            for _ in 0..k {
                match ch.pick(5) {
                    0 => v.push((Sz::Fixed(2), P::Fill('a'))),
                    1 => v.push((Sz::Fixed(0), P::Fill('b'))),
                    d => {
                        let root = match pdoc(ch.pick(N_PDOC)).build(false) {
                            Some(r) => r,
                            None => return Verdict::Skip,
                        };
                        let height = [0.0, 0.3, 0.5, 1.0][ch.pick(4)];
                        let target = if d == 2 { Target::Start } else { Target::End };
                        let path = if d == 4 && !root.children.is_empty() { vec![root.children.len() - 1] } else { vec![] };
                        let e = elaborate(&root, None);
                        rows += lay_out(&root, e, w as u64).lines.len() as u64;
                        contents.push(Some(Content {
                            root,
                            opts: Opts { path, target, height, strat: Strat::Full, set_focus: true },
                        }));
                        v.push((Sz::Dyn, P::Doc(contents.len() - 1)));
                    }
                }
            }
            let p = P::Vert(v);
            // Everything fits in far fewer rows, so the same must be shown as in a lower window.
            let low = rows as u32 + 2 * k as u32 + 1;
            let g = Grid::of(&p, &contents, Sty::NONE, w, low);
            if g.open || !g.errs.is_empty() {
                return Verdict::Skip;
            }
            let sc = Scene { pane: &p, contents: &contents, sty: Sty::NONE, w, h };
            let ctx = Ctx::new();
            st.add("states", 1);
            st.add("runs", 1);
            let bad = |m: String| Verdict::Bad(format!("{}\n{}", m, sc.show()));
            match guarded(|| sc.run(&ctx, 0)) {
                Err(m) => bad(format!("panic: {}", m)),
                Ok((_, Err(e))) => bad(format!("error {:?}", e)),
                Ok((win, Ok(()))) => {
                    st.add("transitions", win.calls.get() + ctx.calls.get());
                    st.outcome(hash_of(&format!("{:?}", win.focus)));
                    let mut f = win.focus.clone();
                    let mut want = g.focus.clone();
                    f.sort();
                    want.sort();
                    if let Err(m) = compare_cells(&win, &g, Aspect::Content, true) {
                        return bad(m);
                    }
                    if f != want {
                        return bad(format!("focus set at {:?}, expected {:?}", win.focus, g.focus));
                    }
                    Verdict::Ok
                }
            }
        },
    )
}

const TEXT_NL: Gram = Gram { leaves: &[crate::gen::g::la, crate::gen::g::nl], unary: &[], ..CORE_CHOICE };

fn c16(t: Tier) -> Vec<Universe> {
    const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
    const TWO: &[usize] = &[0, 1, 2, 3, 4, 7, 9, 10, 11];
    match t {
        Tier::Quick => vec![
            u_wide(&LENS, &[0, 1, 32767, 65534, 65535], TWO, false),
            u_wide(&LENS_FEW, &[1, 65534, 65535], ALL, false),
            u_wide(&LENS_FEW, &[65535], TWO, true),
            u_sums(),
            u_wide_grammar("core-choice", CORE_CHOICE, 7, &[(65535, 65535), (65536, 2)], &[65535]),
            u_wide_grammar("text-newline", TEXT_NL, 9, &[(70000, 0)], &[65535]),
            u_wide_grammar("core", CORE, 5, &[(65535, 65535), (65536, 2), (70000, 65534)], &[65535]),
            u_ordinary(2),
            u_many(&[100, 400], &[1, 20, 65535]),
            u_huge_windows(&[3, 65535, 65536]),
            u_huge_sizes(3),
            u_huge_heights(2),
            u_tall(2, true),
        ],
        Tier::Thorough => vec![
            u_wide(&LENS, &[0, 1, 2, 32766, 32767, 32768, 65533, 65534, 65535], TWO, false),
            u_wide(&LENS, &[1, 32767, 65534, 65535], ALL, false),
            u_wide(&LENS, &[32767, 65534, 65535], ALL, true),
            u_sums(),
            u_wide_grammar("text-newline", TEXT_NL, 11, &[(70000, 0)], &[65535]),
            u_wide_grammar("core-choice", CORE_CHOICE, 9, &[(65535, 65535), (65536, 2), (70000, 65534)], &[65535]),
            u_wide_grammar("core-lean", CORE_LEAN, 6, &[(65535, 65535), (65536, 2), (70000, 65534)], &[65534, 65535]),
            u_wide_grammar("core", CORE, 5, &[(65535, 65535), (65536, 2), (70000, 65534)], &[65534, 65535]),
            u_ordinary(3),
            u_many(&[50, 200, 1000, 2000], &[1, 20, 77, 65535]),
            u_huge_windows(&[1, 3, 65533, 65534, 65535, 65536, 131072]),
            u_huge_sizes(4),
            u_huge_heights(3),
            u_tall(2, false),
        ],
    }
}

// ---- C17: the JSON example --------------------------------------------------------------------

#[derive(Clone, Debug)]
enum J {
    Null,
    Bool(bool),
    Str(&'static str),
    Num(f64),
    Arr(Vec<J>),
    Obj(Vec<(Option<String>, J)>),
    /// only as an entry of an array or object (with no key), or as a root
    Com(&'static str),
    Roots(Vec<J>),
}

impl J {
    fn doc(&self) -> Json {
        match self {
            J::Null => json_null(),
            J::Bool(b) => json_bool(*b),
            J::Str(s) => json_string(s),
            J::Num(f) => json_number(*f),
            J::Arr(v) => json_array(v.iter().map(|x| x.doc()).collect()),
            J::Obj(v) => json_object(
                v.iter()
                    .map(|(k, x)| match k {
                        Some(k) => json_object_pair(k, x.doc()),
                        None => x.doc(),
                    })
                    .collect(),
            ),
            J::Com(s) => json_comment(s),
            J::Roots(v) => json_roots(v.iter().map(|x| x.doc()).collect()),
        }
    }
    fn value(&self) -> serde_json::Value {
        use serde_json::Value;
        match self {
            J::Null => Value::Null,
            J::Bool(b) => Value::Bool(*b),
            J::Str(s) => Value::String(s.to_string()),
            J::Num(f) => serde_json::json!(f),
            J::Arr(v) => Value::Array(v.iter().filter(|x| !matches!(x, J::Com(_))).map(|x| x.value()).collect()),
            J::Obj(v) => Value::Object(
                v.iter().filter_map(|(k, x)| k.as_ref().map(|k| (k.clone(), x.value()))).collect(),
            ),
            _ => unreachable!(),
        }
    }
    fn has_comment(&self) -> bool {
        match self {
            J::Com(_) => true,
            J::Arr(v) | J::Roots(v) => v.iter().any(|x| x.has_comment()),
            J::Obj(v) => v.iter().any(|x| x.1.has_comment()),
            _ => false,
        }
    }
}

type Ink = (&'static str, bool);
const PLAIN: Ink = ("White", false);
const CONSTANT: Ink = ("Green", true);
const STRING: Ink = ("Magenta", false);
const NUMBER: Ink = ("Blue", false);
const COMMENT: Ink = ("Yellow", false);

/// In quotes; strings with characters to escape are covered by parsing back what was printed.
fn quoted(s: &str) -> String {
    format!("\"{}\"", s)
}

struct Page {
    lines: Vec<Vec<(char, Ink)>>,
    col: u64,
    width: u64,
}
impl Page {
    fn put(&mut self, s: &str, ink: Ink) {
        self.col += width_of(s);
        self.lines.last_mut().unwrap().extend(s.chars().map(|c| (c, ink)));
    }
    fn newline(&mut self, indent: usize) {
        self.lines.push(vec![]);
        self.col = 0;
        self.put(&" ".repeat(indent), PLAIN);
    }
    fn scalar(&mut self, j: &J) {
        match j {
            J::Null => self.put("null", CONSTANT),
            J::Bool(true) => self.put("true", CONSTANT),
            J::Bool(false) => self.put("false", CONSTANT),
            J::Str(s) => self.put(&quoted(s), STRING),
            J::Num(f) => self.put(&format!("{}", f), NUMBER),
            _ => unreachable!(),
        }
    }
    fn one_line(&mut self, j: &J) {
        match j {
            J::Arr(v) => {
                self.put("[", PLAIN);
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.put(", ", PLAIN);
                    }
                    self.one_line(x);
                }
                self.put("]", PLAIN);
            }
            J::Obj(v) => {
                self.put("{", PLAIN);
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        self.put(", ", PLAIN);
                    }
                    self.put(&quoted(k.as_ref().unwrap()), STRING);
                    self.put(": ", PLAIN);
                    self.one_line(x);
                }
                self.put("}", PLAIN);
            }
            _ => self.scalar(j),
        }
    }
    fn fits(&self, j: &J, suffix: u64) -> bool {
        if j.has_comment() {
            return false;
        }
        let mut p = Page { lines: vec![vec![]], col: 0, width: 0 };
        p.one_line(j);
        self.col + p.col + suffix <= self.width
    }
    fn value(&mut self, j: &J, indent: usize, suffix: u64) {
        match j {
            J::Arr(v) if v.is_empty() => self.put("[]", PLAIN),
            J::Obj(v) if v.is_empty() => self.put("{}", PLAIN),
            J::Arr(_) | J::Obj(_) if self.fits(j, suffix) => self.one_line(j),
            J::Arr(v) => {
                self.put("[", PLAIN);
                let last = v.iter().rposition(|x| !matches!(x, J::Com(_)));
                for (i, x) in v.iter().enumerate() {
                    self.newline(indent + 4);
                    let comma = last.map_or(false, |l| i < l) && !matches!(x, J::Com(_));
                    self.value(x, indent + 4, comma as u64);
                    if comma {
                        self.put(",", PLAIN);
                    }
                }
                self.newline(indent);
                self.put("]", PLAIN);
            }
            J::Obj(v) => {
                self.put("{", PLAIN);
                let last = v.iter().rposition(|x| x.0.is_some());
                for (i, (k, x)) in v.iter().enumerate() {
                    self.newline(indent + 4);
                    let comma = last.map_or(false, |l| i < l) && k.is_some();
                    if let Some(k) = k {
                        self.put(&format!("\"{}\"", k), STRING);
                        self.put(": ", PLAIN);
                    }
                    self.value(x, indent + 4, comma as u64);
                    if comma {
                        self.put(",", PLAIN);
                    }
                }
                self.newline(indent);
                self.put("}", PLAIN);
            }
            J::Com(s) => {
                self.put("// ", COMMENT);
                for (i, word) in s.split_whitespace().enumerate() {
                    if i > 0 {
                        if self.col + 1 + width_of(word) <= self.width {
                            self.put(" ", COMMENT);
                        } else {
                            self.newline(indent);
                            self.put("// ", COMMENT);
                        }
                    }
                    self.put(word, COMMENT);
                }
            }
            J::Roots(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.newline(0);
                    }
                    self.value(x, 0, 0);
                }
            }
            _ => self.scalar(j),
        }
    }
}

fn ink(s: &BasicStyle) -> Ink {
    let c = match s.color {
        Color::White => "White",
        Color::Black => "Black",
        Color::Red => "Red",
        Color::Green => "Green",
        Color::Yellow => "Yellow",
        Color::Blue => "Blue",
        Color::Magenta => "Magenta",
        Color::Cyan => "Cyan",
    };
    (c, s.bold)
}

fn chars<'d>(segs: &[ppp::Segment<'d, &'d Json>]) -> Vec<(char, Ink)> {
    segs.iter().flat_map(|s| s.str.chars().map(|c| (c, ink(&s.style)))).collect()
}

fn check_json(j: &J, width: u16, st: &mut Stats) -> Result<(), String> {
    let doc = j.doc();
    let mut page = Page { lines: vec![vec![]], col: 0, width: width as u64 };
    page.value(j, 0, 0);
    let want: Vec<String> = page.lines.iter().map(|l| l.iter().map(|c| c.0).collect()).collect();
    st.add("states", 1);
    st.add("runs", 2);
    st.outcome(hash_of(&want));
    let got = ppp::pretty_print_to_string(&doc, width).map_err(|e| format!("error {:?}", e))?;
    if got != want.join("\n") {
        return Err(format!("printed:\n{}\nexpected:\n{}", got, want.join("\n")));
    }
    if !matches!(j, J::Com(_) | J::Roots(_)) {
        let plain: Vec<&str> = got.lines().filter(|l| !l.trim_start().starts_with("//")).collect();
        let back: serde_json::Value = serde_json::from_str(&plain.join("\n"))
            .map_err(|e| format!("does not parse ({}):\n{}", e, got))?;
        if !same_value(&back, &j.value()) {
            return Err(format!("parses back as {} instead of {}", back, j.value()));
        }
    }
    // styles, focused at both ends
    for target in [ppp::FocusTarget::Start, ppp::FocusTarget::End] {
        let (up, focused, down) =
            ppp::pretty_print(&doc, width, &[], target, None).map_err(|e| format!("error {:?}", e))?;
        let mut lines: Vec<Vec<(char, Ink)>> = vec![];
        for l in up {
            lines.insert(0, chars(&l.map_err(|e| format!("error {:?}", e))?.segments));
        }
        let mut f = chars(&focused.left_segments);
        f.extend(chars(&focused.right_segments));
        lines.push(f);
        for l in down {
            lines.push(chars(&l.map_err(|e| format!("error {:?}", e))?.segments));
        }
        st.add("transitions", lines.len() as u64);
        if lines.len() != page.lines.len() {
            return Err(format!("{} lines, expected {}", lines.len(), page.lines.len()));
        }
        for (g, w) in lines.iter().zip(&page.lines) {
            for (a, b) in g.iter().zip(w) {
                if a.0 != b.0 || (a.1 != b.1 && a.0 != ' ') {
                    return Err(format!(
                        "{:?} in {:?}: shown as {:?}, expected {:?} as {:?}",
                        a.0,
                        w.iter().map(|c| c.0).collect::<String>(),
                        a.1,
                        b.0,
                        b.1
                    ));
                }
            }
            if g.len() != w.len() {
                return Err("line of a different length".to_string());
            }
        }
    }
    Ok(())
}

fn same_value(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x == y || (x - y).abs() <= y.abs() * 1e-15
        }
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_value(a, b)),
        (Object(x), Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same_value(v, w)))
        }
        _ => a == b,
    }
}

const SCALARS: [J; 9] = [
    J::Null,
    J::Num(5.0),
    J::Str("ab"),
    J::Bool(true),
    J::Str(""),
    J::Num(-0.25),
    J::Bool(false),
    J::Str("信 x"),
    J::Num(1e21),
];
const COMMENTS: [&str; 6] = [
    "one two",
    "w",
    "",
    "  a bb   ccc dddd ",
    "longer-words make 信息 wraps",
    "\u{3000}ab\u{2028}cd\u{a0}ef\u{85}\u{b}gh\n ij\u{2009}k",
];

/// A value of exactly `size` nodes.
fn gen_json(ch: &mut Chooser, size: usize, ns: usize, ncom: usize) -> J {
    if size == 1 {
        let k = ch.pick(ns + 2);
        return if k < ns {
            SCALARS[k].clone()
        } else if k == ns {
            J::Arr(vec![])
        } else {
            J::Obj(vec![])
        };
    }
    let obj = ch.pick(2) == 1;
    let mut left = size - 1;
    let mut entries: Vec<J> = vec![];
    while left > 0 {
        let s = 1 + ch.pick(left);
        left -= s;
        if s == 1 && ch.pick(2) == 1 {
            entries.push(J::Com(COMMENTS[ch.pick(ncom)]));
        } else {
            entries.push(gen_json(ch, s, ns, ncom));
        }
    }
    if obj {
        J::Obj(
            entries
                .into_iter()
                .enumerate()
                .map(|(i, e)| match e {
                    J::Com(_) => (None, e),
                    _ => (Some(format!("k{}", i)), e),
                })
                .collect(),
        )
    } else {
        J::Arr(entries)
    }
}

/// Every short string: what is printed must be one JSON string on one line, in the string style.
fn u_strings(n: usize) -> Universe {
    const ALPHABET: [char; 20] = [
        'a', '"', '\\', '\n', '\r', '\t', '\0', '\u{1}', '\u{8}', '\u{c}', '\u{1b}', '\u{1f}', ' ', '/', 'n', 'u', '\u{7f}',
        '\u{2028}', '信', '\u{1F600}',
    ];
    universe(
        format!("strings<={}", n),
        format!("every string of at most {} of the characters {:?}, as a value, as an entry and as a key", n, ALPHABET),
        move |ch, st| {
            let k = ch.pick(n + 1);
            let s: String = (0..k).map(|_| ALPHABET[ch.pick(ALPHABET.len())]).collect();
            let (doc, want) = match ch.pick(3) {
                0 => (json_string(&s), serde_json::json!(s)),
                1 => (json_array(vec![json_string(&s), json_null()]), serde_json::json!([s, null])),
                _ => (
                    json_object(vec![json_object_pair(&s, json_string(&s))]),
                    serde_json::json!({ s.clone(): s }),
                ),
            };
            st.add("states", 1);
            st.add("runs", 2);
            let bad = |m: String| Verdict::Bad(format!("{}\nstring {:?}", m, s));
            let r = guarded(|| -> Result<(), String> {
                let e = |e: ppp::PrintingError<_>| format!("error {:?}", e);
                let got = ppp::pretty_print_to_string(&doc, 200).map_err(e)?;
                if got.contains('\n') {
                    return Err(format!("printed on several lines: {:?}", got));
                }
                let back: serde_json::Value =
                    serde_json::from_str(&got).map_err(|e| format!("{:?} does not parse: {}", got, e))?;
                if back != want {
                    return Err(format!("{:?} parses back as {}", got, back));
                }
                let (_, f, _) = ppp::pretty_print(&doc, 200, &[], ppp::FocusTarget::Start, None).map_err(e)?;
                let cs = chars(&f.right_segments);
                st.outcome(hash_of(&cs));
                st.add("transitions", cs.len() as u64);
                // everything between the outermost quotes of a lone string has the string style
                if !got.starts_with(['[', '{']) && cs.iter().any(|c| c.1 != STRING) {
                    return Err(format!("not all of {:?} has the string style", got));
                }
                Ok(())
            });
            match r {
                Err(m) => bad(format!("panic: {}", m)),
                Ok(Err(m)) => bad(m),
                Ok(Ok(())) => Verdict::Ok,
            }
        },
    )
}

/// Every character there is, in strings, keys and comments.
fn u_json_every_char() -> Universe {
    let all = crate::gen::AllChars::get();
    universe(
        "every-char".into(),
        "every character of Unicode, between two letters: as a string, as key and value of an object, and in a comment (where it separates two words exactly if it is white space)".into(),
        move |ch, st| {
            let kind = ch.pick(3);
            let (c, s) = all.pick(ch);
            let doc = match kind {
                0 => json_string(s),
                1 => json_object(vec![json_object_pair(s, json_string(s))]),
                _ => json_array(vec![json_comment(s), json_null()]),
            };
            st.add("states", 1);
            st.add("runs", 1);
            st.add("transitions", 1);
            let r = guarded(|| -> Result<(), String> {
                let got = ppp::pretty_print_to_string(&doc, 200).map_err(|e| format!("error {:?}", e))?;
                st.outcome(hash_of(&got));
                if kind == 2 {
                    let want = if c.is_whitespace() { "[\n    // a b\n    null\n]".to_string() } else { format!("[\n    // {}\n    null\n]", s) };
                    return if got == want { Ok(()) } else { Err(format!("prints {:?}", got)) };
                }
                if got.contains('\n') {
                    return Err(format!("printed on several lines: {:?}", got));
                }
                let back: serde_json::Value =
                    serde_json::from_str(&got).map_err(|e| format!("{:?} does not parse: {}", got, e))?;
                let same = match kind {
                    0 => back.as_str() == Some(s),
                    _ => back.as_object().is_some_and(|o| o.len() == 1 && o.get(s).and_then(|v| v.as_str()) == Some(s)),
                };
                if same {
                    Ok(())
                } else {
                    Err(format!("{:?} parses back as {}", got, back))
                }
            });
            match r {
                Err(m) => Verdict::Bad(format!("panic: {}\nstring {:?}", m, s)),
                Ok(Err(m)) => Verdict::Bad(format!("{}\nstring {:?}", m, s)),
                Ok(Ok(())) => Verdict::Ok,
            }
        },
    )
}

/// Does this follow the grammar of JSON numbers?
fn is_json_number(s: &str) -> bool {
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let s = s.strip_prefix('-').unwrap_or(s);
    let (s, exp) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let (int, frac) = match s.find('.') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    digits(int)
        && (int.len() == 1 || !int.starts_with('0'))
        && frac.map_or(true, digits)
        && exp.map_or(true, |e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)))
}

/// Finite numbers of every magnitude: what is printed must denote exactly that number.
fn u_numbers(full: bool) -> Universe {
    const M: [u64; 12] = [
        0,
        1,
        1 << 51,
        (1 << 52) - 1,
        0x5555_5555_5555_5,
        0xAAAA_AAAA_AAAA_A,
        0x9_9999_9999_999A,
        0x4_7AE1_47AE_147B,
        2,
        3 << 50,
        0xF_FFFF_FFFF_FFFE,
        0x0_0000_0010_0000,
    ];
    let few = if full { M.len() } else { 8 };
    universe(
        "numbers".into(),
        format!("numbers of every exponent with {} mantissas and both signs; integers and thousandths up to 1050; powers of ten; 2^53 and its neighbours: alone, and negated in an array, at widths 0 and 65535", few),
        move |ch, st| {
            let f = match ch.pick(4) {
                0 => {
                    let e = ch.pick(2047) as u64;
                    let m = M[ch.pick(few)];
                    f64::from_bits(e << 52 | m)
                }
                1 => ch.pick(1050) as f64 / [1.0, 10.0, 1000.0][ch.pick(3)],
                2 => {
                    let k = ch.pick(600) as i32 - 300;
                    format!("{}e{}", [1, 7][ch.pick(2)], k).parse().unwrap()
                }
                _ => ((1u64 << 53) - 10 + ch.pick(20) as u64) as f64,
            };
            let f = if ch.pick(2) == 1 { -f } else { f };
            let width = [65535u16, 0][ch.pick(2)];
            st.add("states", 1);
            st.add("runs", 2);
            let r = guarded(|| -> Result<(), String> {
                let e = |e: ppp::PrintingError<_>| format!("error {:?}", e);
                let alone = ppp::pretty_print_to_string(&json_number(f), width).map_err(e)?;
                let listed = ppp::pretty_print_to_string(&json_array(vec![json_number(-f), json_null()]), width).map_err(e)?;
                st.outcome(hash_of(&alone));
                let same = |s: &str, f: f64| is_json_number(s) && s.parse::<f64>().map_or(false, |g| g == f);
                if !same(&alone, f) {
                    return Err(format!("{:e} is printed as {:?}", f, alone));
                }
                let s: String = listed.chars().filter(|c| !c.is_whitespace()).collect();
                let inner = s.strip_prefix('[').and_then(|s| s.strip_suffix(",null]"));
                if !inner.map_or(false, |s| same(s, -f)) {
                    return Err(format!("{:e} is printed in an array as {:?}", -f, listed));
                }
                Ok(())
            });
            let bad = |m: String| Verdict::Bad(format!("{}\nnumber {:e}, width {}", m, f, width));
            match r {
                Err(m) => bad(format!("panic: {}", m)),
                Ok(Err(m)) => bad(m),
                Ok(Ok(())) => Verdict::Ok,
            }
        },
    )
}

fn json_universe(
    name: String,
    describe: String,
    widths: &'static [u16],
    make: impl Fn(&mut Chooser) -> J + Send + Sync + 'static,
) -> Universe {
    let d = format!("{}; widths {:?}", describe, widths);
    universe(name, d, move |ch, st| {
        let j = make(ch);
        let width = widths[ch.pick(widths.len())];
        let show = || {
            let s = format!("{:?}", j);
            let s: String = s.chars().take(2000).collect();
            format!("width {}: {}", width, s)
        };
        match guarded(|| check_json(&j, width, st)) {
            Err(m) if m.contains("harness:") => panic!("{}", m),
            Err(m) => Verdict::Bad(format!("panic: {}\n{}", m, show())),
            Ok(Err(m)) => {
                let m: String = m.chars().take(3000).collect();
                Verdict::Bad(format!("{}\n{}", m, show()))
            }
            Ok(Ok(())) => {
                if st.want_sample {
                    st.samples.push(show());
                }
                Verdict::Ok
            }
        }
    })
}

fn c17(t: Tier) -> Vec<Universe> {
    const W: &[u16] = &[0, 4, 8, 11, 14, 18, 24, 40, 200];
    const WT: &[u16] = &[
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28,
        29, 30, 40, 50, 80, 200,
    ];
    let values = |max: usize, ns: usize, ncom: usize, w: &'static [u16]| {
        json_universe(
            format!("values<={}x{}x{}", max, ns, ncom),
            format!("every JSON value of at most {} nodes over {} scalars, empty containers and {} comments", max, ns, ncom),
            w,
            move |ch| {
                let s = 1 + ch.pick(max);
                gen_json(ch, s, ns, ncom)
            },
        )
    };
    let roots = |n: usize, w: &'static [u16]| {
        json_universe(
            format!("roots<={}", n),
            format!("up to {} roots, each a value of at most 3 nodes or a comment; and lone comments", n),
            w,
            move |ch| {
                let k = ch.pick(n + 2);
                if k == n + 1 {
                    return J::Com(COMMENTS[ch.pick(COMMENTS.len())]);
                }
                J::Roots(
                    (0..k)
                        .map(|_| {
                            let s = ch.pick(4);
                            if s == 0 {
                                J::Com(COMMENTS[ch.pick(COMMENTS.len())])
                            } else {
                                gen_json(ch, s, 2, 1)
                            }
                        })
                        .collect(),
                )
            },
        )
    };
    let shapes = |n: usize, w: &'static [u16]| {
        json_universe(
            format!("long-and-deep<={}", n),
            format!("lists of up to {} entries, and nests of arrays and objects up to {} deep, each with and without a comment", n, n),
            w,
            move |ch| {
                let k = 1 + ch.pick(n);
                let com = ch.pick(2) == 1;
                match ch.pick(4) {
                    0 => {
                        let mut v: Vec<J> = (0..k).map(|i| J::Num(i as f64)).collect();
                        if com {
                            v.insert(k / 2, J::Com(COMMENTS[3]));
                        }
                        J::Arr(v)
                    }
                    1 => {
                        let mut v: Vec<(Option<String>, J)> =
                            (0..k).map(|i| (Some(format!("key {}", i)), J::Arr(vec![J::Null, J::Str("ab")]))).collect();
                        if com {
                            v.push((None, J::Com(COMMENTS[0])));
                        }
                        J::Obj(v)
                    }
                    2 => {
                        let mut j = if com { J::Arr(vec![J::Com("x")]) } else { J::Arr(vec![]) };
                        for _ in 0..k {
                            j = J::Arr(vec![j, J::Null]);
                        }
                        j
                    }
                    _ => {
                        let mut j = J::Obj(if com { vec![(None, J::Com("x y"))] } else { vec![] });
                        for i in 0..k {
                            j = J::Obj(vec![(Some(format!("a{}", i)), J::Bool(true)), (Some("b".into()), j)]);
                        }
                        j
                    }
                }
            },
        )
    };
    let comments = |n: usize, w: &'static [u16]| {
        const ALPHABET: [char; 13] = [
            'a', '信', '/', ' ', '\n', '\t', '\u{3000}', '\u{a0}', '\u{85}', '\u{b}', '\u{2028}', '\u{200b}', '"',
        ];
        json_universe(
            format!("comments<={}", n),
            format!("every comment of at most {} of the characters {:?}, alone, in an array, in an object", n, ALPHABET),
            w,
            move |ch| {
                let k = ch.pick(n + 1);
                let s: String = (0..k).map(|_| ALPHABET[ch.pick(ALPHABET.len())]).collect();
                let c = J::Com(Box::leak(s.into_boxed_str()));
                match ch.pick(3) {
                    0 => c,
                    1 => J::Arr(vec![c, J::Null]),
                    _ => J::Obj(vec![(Some("k".into()), J::Null), (None, c)]),
                }
            },
        )
    };
    let many = |ns: &'static [usize], w: &'static [u16]| {
        json_universe(
            format!("many-{}", ns.len()),
            format!("arrays of numbers, arrays of arrays, objects, and roots with {:?} entries, with a comment first, in the middle, last, or none", ns),
            w,
            move |ch| {
                let k = ns[ch.pick(ns.len())];
                let kind = ch.pick(4);
                let com = ch.pick(4);
                let at = [0, k / 2, k, 0][com];
                if kind == 1 {
                    let mut v: Vec<(Option<String>, J)> =
                        (0..k).map(|i| (Some(format!("k{}", i)), J::Num(i as f64))).collect();
                    if com < 3 {
                        v.insert(at, (None, J::Com(COMMENTS[1])));
                    }
                    return J::Obj(v);
                }
                let mut v: Vec<J> = (0..k)
                    .map(|i| if kind == 0 { J::Num(i as f64) } else { J::Arr(vec![J::Bool(i % 2 == 0)]) })
                    .collect();
                if com < 3 {
                    v.insert(at, J::Com(COMMENTS[1]));
                }
                if kind == 3 {
                    J::Roots(v)
                } else {
                    J::Arr(v)
                }
            },
        )
    };
    let words = |n: usize, w: &'static [u16]| {
        static TEXTS: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
        json_universe(
            format!("words<={}", n),
            format!("comments of two words, one of 1 to {} characters, the other of 1, 7, 64 or 129, in both orders; alone or in an object", n),
            w,
            move |ch| {
                // [length of the first][of the second][order]
                let texts = TEXTS.get_or_init(|| {
                    let mut v: Vec<&'static str> = vec![];
                    for i in 1..=300 {
                        for j in [1, 7, 64, 129] {
                            let (a, b) = ("lo".repeat(i)[..i].to_string(), "ip".repeat(j)[..j].to_string());
                            v.push(Box::leak(format!("{} {}", a, b).into_boxed_str()));
                            v.push(Box::leak(format!("{} {}", b, a).into_boxed_str()));
                        }
                    }
                    v
                });
                let c = J::Com(texts[ch.pick(n * 8)]);
                match ch.pick(2) {
                    0 => c,
                    _ => J::Obj(vec![(None, c), (Some("k".into()), J::Null)]),
                }
            },
        )
    };
    let one_odd = |ns: &'static [usize], w: &'static [u16]| {
        json_universe(
            format!("one-odd-{}", ns.len()),
            format!("arrays, objects and roots of {:?} values, all of them 1 but for one, anywhere, that is one of 8 others, or a comment, or two in a row", ns),
            w,
            move |ch| {
                let k = ns[ch.pick(ns.len())];
                let at = ch.pick(k);
                let odd = match ch.pick(10) {
                    0 => vec![J::Null],
                    1 => vec![J::Bool(false)],
                    2 => vec![J::Str("a b")],
                    3 => vec![J::Str("")],
                    4 => vec![J::Num(-0.5)],
                    5 => vec![J::Arr(vec![])],
                    6 => vec![J::Arr(vec![J::Com("c")])],
                    7 => vec![J::Obj(vec![(Some("k".into()), J::Null), (Some("".into()), J::Num(2.0))])],
                    8 => vec![J::Com("lorem ipsum")],
                    _ => vec![J::Com("c"), J::Com("")],
                };
                let mut v: Vec<J> = (0..k).map(|_| J::Num(1.0)).collect();
                v.splice(at..at + 1, odd);
                match ch.pick(3) {
                    0 => J::Arr(v),
                    1 => J::Roots(v),
                    _ => J::Obj(
                        v.into_iter()
                            .enumerate()
                            .map(|(i, j)| match j {
                                J::Com(c) => (None, J::Com(c)),
                                j => (Some(format!("k{}", i)), j),
                            })
                            .collect(),
                    ),
                }
            },
        )
    };
    match t {
        Tier::Quick => vec![
            words(140, &[0, 20, 70, 140, 300]),
            one_odd(&[2, 7, 16, 33, 65], &[0, 12, 40, 102, 1000]),
            many(&[127, 128, 129, 255, 256, 257, 300, 1000], &[0, 40, 65535]),
            values(4, 4, 3, W),
            values(3, 9, 5, WT),
            values(5, 2, 1, W),
            roots(3, &[0, 5, 9, 30]),
            u_strings(3),
            u_json_every_char(),
            comments(3, &[0, 3, 4, 5, 6, 7, 8, 9, 20]),
            u_numbers(false),
            shapes(40, &[0, 10, 40, 100, 1000]),
        ],
        Tier::Thorough => vec![
            words(300, WT),
            one_odd(&[2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 33, 65, 129], &[0, 12, 20, 40, 80, 102, 300, 1000]),
            many(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 4097, 20000, 66000], &[0, 10, 40, 1000, 65535]),
            values(5, 4, 3, WT),
            values(4, 9, 6, WT),
            values(6, 2, 1, W),
            values(7, 1, 1, &[4, 9, 14, 20, 30]),
            roots(3, WT),
            u_strings(4),
            u_json_every_char(),
            comments(4, WT),
            u_numbers(true),
            shapes(250, &[0, 10, 40, 100, 1000, 60000]),
        ],
    }
}

// ---- C20: the plain-text window ---------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
enum WinOp {
    Put { ch: char, row: u32, col: u16, full: bool },
    Focus { row: u32, col: u16 },
}

fn plain_expect(ops: &[WinOp]) -> Option<String> {
    // row -> column -> what stands there; None: the right half of a full-width character
    let mut cells: std::collections::BTreeMap<(u32, u16), Option<char>> = Default::default();
    for op in ops {
        if let WinOp::Put { ch, row, col, full } = *op {
            // writes that would cut a full-width character in half are outside of the property
            if cells.get(&(row, col)) == Some(&None) {
                return None;
            }
            if full && matches!(cells.get(&(row, col + 1)), Some(Some(_))) && cells.contains_key(&(row, col + 2)) {
                if cells.get(&(row, col + 2)) == Some(&None) {
                    return None;
                }
            }
            if !full && cells.get(&(row, col + 1)) == Some(&None) {
                return None;
            }
            cells.insert((row, col), Some(ch));
            if full {
                cells.insert((row, col + 1), None);
            }
        }
    }
    let rows = cells.keys().map(|k| k.0 + 1).max().unwrap_or(0);
    let mut out = String::new();
    for r in 0..rows {
        let end = cells.range((r, 0)..(r + 1, 0)).map(|(k, _)| k.1 + 1).max().unwrap_or(0);
        for c in 0..end {
            match cells.get(&(r, c)) {
                None => out.push(' '),
                Some(Some(ch)) => out.push(*ch),
                Some(None) => (),
            }
        }
        out.push('\n');
    }
    Some(out)
}

fn run_plain(w: u16, h: Option<u32>, ops: &[WinOp]) -> Result<String, String> {
    let mut win: PlainText<()> = match h {
        Some(h) => PlainText::new(w, h),
        None => PlainText::new_unbounded_height(w),
    };
    let mut points = vec![];
    for i in 0..=ops.len() {
        let size = win.size().unwrap();
        if size.width != w || size.height != h.unwrap_or(u32::MAX) {
            return Err(format!("after {} operations the size is {:?}", i, size));
        }
        if win.focus_points() != points {
            return Err(format!("after {} operations the focus points are {:?}", i, win.focus_points()));
        }
        match ops.get(i) {
            None => (),
            Some(WinOp::Put { ch, row, col, full }) => {
                win.display_char(*ch, ppp::Pos { row: *row, col: *col }, &(), *full).unwrap()
            }
            Some(WinOp::Focus { row, col }) => {
                let p = ppp::Pos { row: *row, col: *col };
                win.set_focus(p).unwrap();
                points.push(p);
            }
        }
    }
    let text = format!("{}", win);
    // A destination that takes only so many bytes gets a prefix, and the failure is reported.
    let mut step = 1;
    let mut room = 0;
    while room < text.len() {
        let mut dst = Limited { room, got: String::new() };
        let r = std::fmt::Write::write_fmt(&mut dst, format_args!("{}", win));
        if r.is_ok() || !text.starts_with(&dst.got) {
            return Err(format!("written to a destination of {} bytes: {:?}, {:?}", room, r, dst.got));
        }
        room += step;
        if room > 40 {
            step *= 16;
        }
    }
    Ok(text)
}

/// A text destination that fails once it is full.
struct Limited {
    room: usize,
    got: String,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.got.len() + s.len() > self.room {
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn u_plain(w: u16, h: u32, n: usize, unbounded: bool, focus: bool) -> Universe {
    universe(
        format!("history-{}x{}-{}{}{}", w, h, n, if unbounded { "-unbounded" } else { "" }, if focus { "-focus" } else { "" }),
        format!(
            "every sequence of at most {} writes (half- and full-width) {} within {} columns and {} rows of a {} window",
            n, if focus { "and focus settings" } else { "" }, w, h, if unbounded { "height-unbounded" } else { "bounded" }
        ),
        move |ch, st| {
            let k = ch.pick(n + 1);
            let half = w as usize * h as usize;
            let full = (w as usize - 1) * h as usize;
            let foc = if focus { half } else { 0 };
            let mut ops = vec![];
            for i in 0..k {
                let x = ch.pick(half + full + foc);
                ops.push(if x < half {
                    WinOp::Put {
                        ch: ['a', 'b', ' ', 'd', 'é', 'f'][i % 6],
                        row: (x / w as usize) as u32,
                        col: (x % w as usize) as u16,
                        full: false,
                    }
                } else if x < half + full {
                    let x = x - half;
                    WinOp::Put {
                        ch: ['信', '息', '宽', '漢', '字', '始'][i % 6],
                        row: (x / (w as usize - 1)) as u32,
                        col: (x % (w as usize - 1)) as u16,
                        full: true,
                    }
                } else {
                    let x = x - half - full;
                    WinOp::Focus { row: (x / w as usize) as u32, col: (x % w as usize) as u16 }
                });
            }
            let want = match plain_expect(&ops) {
                Some(s) => s,
                None => return Verdict::Skip,
            };
            st.add("states", 1);
            st.add("transitions", ops.len() as u64);
            st.add("runs", 1);
            st.outcome(hash_of(&want));
            let h = if unbounded { None } else { Some(h) };
            match guarded(|| run_plain(w, h, &ops)) {
                Err(m) => Verdict::Bad(format!("panic: {}\n{:?}", m, ops)),
                Ok(Err(m)) => Verdict::Bad(format!("{}\n{:?}", m, ops)),
                Ok(Ok(s)) if s != want => {
                    Verdict::Bad(format!("shows {:?}, expected {:?}\n{:?}", s, want, ops))
                }
                Ok(Ok(_)) => {
                    if st.want_sample {
                        st.samples.push(format!("{:?}", ops));
                    }
                    Verdict::Ok
                }
            }
        },
    )
}

/// Every order of writing a full grid: all permutations.
fn u_orders(n: usize) -> Universe {
    universe(
        format!("orders-{}", n),
        format!("every order of writing {} cells (some full-width) spread over 3 rows, leaving gaps", n),
        move |ch, st| {
            let all = [
                WinOp::Put { ch: 'a', row: 0, col: 1, full: false },
                WinOp::Put { ch: '信', row: 0, col: 3, full: true },
                WinOp::Put { ch: 'c', row: 0, col: 5, full: false },
                WinOp::Put { ch: '宽', row: 2, col: 0, full: true },
                WinOp::Put { ch: 'e', row: 2, col: 2, full: false },
                WinOp::Put { ch: '字', row: 2, col: 4, full: true },
                WinOp::Put { ch: 'g', row: 2, col: 7, full: false },
                WinOp::Put { ch: 'h', row: 1, col: 65534, full: false },
            ];
            let mut rest: Vec<WinOp> = all[..n].to_vec();
            let mut ops = vec![];
            while !rest.is_empty() {
                ops.push(rest.remove(ch.pick(rest.len())));
            }
            let want = plain_expect(&ops).expect("harness: orders");
            st.add("states", 1);
            st.add("runs", 1);
            st.add("transitions", n as u64);
            st.outcome(hash_of(&want));
            match guarded(|| run_plain(65535, None, &ops)) {
                Err(m) => Verdict::Bad(format!("panic: {}\n{:?}", m, ops)),
                Ok(Err(m)) => Verdict::Bad(format!("{}\n{:?}", m, ops)),
                Ok(Ok(s)) if s != want => Verdict::Bad(format!("shows {:?}, expected {:?}\n{:?}", s, want, ops)),
                Ok(Ok(_)) => Verdict::Ok,
            }
        },
    )
}

/// Windows of several rows, each blank, full, or something between.
fn u_plain_rows(lens: &'static [u16], rows: u32) -> Universe {
    universe(
        format!("rows-{}x{:?}", rows, lens),
        format!("windows of {} rows, each unwritten or of a length among {:?}: written blank, with half-width characters, full-width ones, characters that have no width (among them NUL and a line end), only its ends, or blank but for its end; written left to right or right to left, top to bottom or bottom to top, to windows of bounded and unbounded height", rows, lens),
        move |ch, st| {
            let h = [Some(rows), None][ch.pick(2)];
            let backward = ch.pick(2) == 1;
            let upward = ch.pick(2) == 1;
            let mut lines: Vec<Vec<WinOp>> = vec![];
            for row in 0..rows {
                let mut ops = vec![];
                let k = ch.pick(1 + 6 * lens.len());
                if k > 0 {
                    let n = lens[(k - 1) / 6];
                    for col in 0..n {
                        let last = col + 1 == n;
                        let put = |ch, full| WinOp::Put { ch, row, col, full };
                        match (k - 1) % 6 {
                            0 => ops.push(put(' ', false)),
                            1 => ops.push(put(['a', 'é', 'c'][col as usize % 3], false)),
                            2 if col % 2 == 0 && !last => ops.push(put(['信', '息'][col as usize / 2 % 2], true)),
                            2 => (),
                            3 => ops.push(put(['\0', '\u{301}', 'x', '\n', '\u{200b}'][col as usize % 5], false)),
                            4 if col == 0 || last => ops.push(put('|', false)),
                            4 => (),
                            _ => ops.push(put(if last { '$' } else { ' ' }, false)),
                        }
                    }
                }
                if backward {
                    ops.reverse();
                }
                lines.push(ops);
            }
            if upward {
                lines.reverse();
            }
            let ops = lines.concat();
            let want = plain_expect(&ops).expect("harness: rows");
            st.add("states", 1);
            st.add("runs", 1);
            st.add("transitions", ops.len() as u64);
            st.outcome(hash_of(&want));
            match guarded(|| run_plain(9999, h, &ops)) {
                Err(m) => Verdict::Bad(format!("panic: {}\n{:?}", m, ops)),
                Ok(Err(m)) => Verdict::Bad(format!("{}\n{:?}", m, ops)),
                Ok(Ok(s)) if s != want => Verdict::Bad(format!("shows {:?}, expected {:?}\n{:?}", s, want, ops)),
                Ok(Ok(_)) => Verdict::Ok,
            }
        },
    )
}

/// Writes far down and far to the right.
fn u_far(n: usize) -> Universe {
    const ROWS: [u32; 8] = [0, 1, 127, 255, 256, 65535, 65536, 70000];
    const COLS: [u16; 6] = [0, 127, 255, 256, 32768, 65533];
    universe(
        format!("far<={}", n),
        format!("every sequence of at most {} writes (half- and full-width) in rows {:?} and columns {:?}, to windows of bounded and unbounded height", n, ROWS, COLS),
        move |ch, st| {
            let h = [Some(70001), None][ch.pick(2)];
            let k = 1 + ch.pick(n);
            let mut ops = vec![];
            for i in 0..k {
                let row = ROWS[ch.pick(ROWS.len())];
                let col = COLS[ch.pick(COLS.len())];
                ops.push(if ch.pick(2) == 0 {
                    WinOp::Put { ch: ['a', 'b', 'c'][i], row, col, full: false }
                } else {
                    WinOp::Put { ch: ['信', '息', '宽'][i], row, col, full: true }
                });
            }
            let want = match plain_expect(&ops) {
                Some(s) => s,
                None => return Verdict::Skip,
            };
            st.add("states", 1);
            st.add("runs", 1);
            st.add("transitions", k as u64);
            st.outcome(hash_of(&want));
            match guarded(|| run_plain(65535, h, &ops)) {
                Err(m) => Verdict::Bad(format!("panic: {}\n{:?}", m, ops)),
                Ok(Err(m)) => Verdict::Bad(format!("{}\n{:?}", m, ops)),
                Ok(Ok(s)) if s != want => Verdict::Bad(format!("shows other text than expected\n{:?}", ops)),
                Ok(Ok(_)) => Verdict::Ok,
            }
        },
    )
}

/// The plain-text window as the target of display_pane.
fn u_plain_pane() -> Universe {
    universe(
        "as-a-window".into(),
        "splits into up to 3 panes (fixed, dynamic, proportional) of fills and 5 documents, displayed to a plain-text window of 0..9 x 1..4 cells; its text against the model's grid".into(),
        |ch, st| {
            let horz = ch.pick(2) == 0;
            let n = 1 + ch.pick(3);
            let mut contents = vec![];
            let mut v = vec![];
            for i in 0..n {
                let size = [Sz::Prop(1), Sz::Dyn, Sz::Fixed(3)][ch.pick(3)];
                let k = if size == Sz::Dyn { 1 + ch.pick(4) } else { ch.pick(5) };
                let p = if k == 0 {
                    P::Fill(['a', '信', 'c'][i])
                } else {
                    contents.push(Some(Content {
                        root: pdoc([0, 1, 4, 5][k - 1]).build(false).unwrap(),
                        opts: Opts { set_focus: true, ..Opts::plain() },
                    }));
                    P::Doc(contents.len() - 1)
                };
                v.push((size, p));
            }
            let p = if horz { P::Horz(v) } else { P::Vert(v) };
            let (w, h) = (ch.pick(10) as u16, 1 + ch.pick(4) as u32);
            let g = Grid::of(&p, &contents, Sty::NONE, w, h);
            if g.open || !g.errs.is_empty() {
                return Verdict::Skip;
            }
            let ctx = Ctx::new();
            let note = to_real_pane(&p);
            let get = |l: usize| {
                contents[l].as_ref().map(|c: &Content| (crate::doc::DRef::<true>::new(&ctx, &c.root), c.opts.real()))
            };
            st.add("states", 1);
            st.add("runs", 1);
            let mut win: PlainText<Sty> = PlainText::new(w, h);
            let r = guarded(|| ppp::pane::display_pane(&mut win, &note, &Sty::NONE, &get).is_ok());
            let mut want = String::new();
            for r in 0..h {
                let row: Vec<Option<CellM>> = (0..w).map(|c| g.cells[r as usize * w as usize + c as usize]).collect();
                let end = row.iter().rposition(|c| c.is_some()).map_or(0, |i| i + 1);
                for c in &row[..end] {
                    match c {
                        None => want.push(' '),
                        Some(CellM { what: What::Half, .. }) => (),
                        Some(x) => want.push(x.ch),
                    }
                }
                want.push('\n');
            }
            // rows below the last written one are not part of the text
            let trim = |s: &str| s.trim_end_matches('\n').to_string();
            let show = || format!("{}x{} {:?}", w, h, p);
            match r {
                Err(m) => Verdict::Bad(format!("panic: {}\n{}", m, show())),
                Ok(false) => Verdict::Bad(format!("error\n{}", show())),
                Ok(true) => {
                    let got = format!("{}", win);
                    st.add("transitions", g.cells.len() as u64);
                    st.outcome(hash_of(&got));
                    if trim(&got) != trim(&want) {
                        return Verdict::Bad(format!("shows\n{}\nexpected\n{}\n{}", got, want, show()));
                    }
                    let foc: Vec<(u32, u16)> = win.focus_points().iter().map(|p| (p.row, p.col)).collect();
                    if g.maybe_focus.is_empty() && foc != g.focus {
                        return Verdict::Bad(format!("focus points {:?}, expected {:?}\n{}", foc, g.focus, show()));
                    }
                    Verdict::Ok
                }
            }
        },
    )
}

fn c20(t: Tier) -> Vec<Universe> {
    match t {
        Tier::Quick => vec![
            u_plain(4, 2, 4, false, false),
            u_plain(5, 1, 5, false, false),
            u_plain(2, 3, 5, true, false),
            u_plain(2, 2, 5, false, true),
            u_orders(8),
            u_far(2),
            u_plain_rows(&[1, 2, 9, 40, 90], 3),
            u_plain_pane(),
        ],
        Tier::Thorough => vec![
            u_plain(4, 2, 5, false, false),
            u_plain(6, 1, 6, false, false),
            u_plain(2, 3, 6, true, false),
            u_plain(3, 3, 5, true, false),
            u_plain(2, 2, 6, false, true),
            u_orders(8),
            u_far(2),
            u_plain_rows(&[1, 2, 3, 9, 17, 33, 65, 90, 130, 260, 600], 3),
            u_plain_pane(),
        ],
    }
}

// ---- C21: the sample tree and styles ----------------------------------------------------------

static TREE_TEXT: Lazy<TreeNotation> = Lazy::new(|| nc::style("red", nc::text()).validate().unwrap());
static TREE_BRANCH: Lazy<TreeNotation> = Lazy::new(|| {
    nc::fold(nc::Fold {
        first: nc::child(0),
        join: nc::left()
            + nc::check(TreeCondition::NeedsSeparator, ppp::CheckPos::LeftChild, nc::lit(","), nc::empty())
            + nc::right(),
    })
    .validate()
    .unwrap()
});

#[derive(Clone, Debug)]
struct TM {
    text: Option<&'static str>,
    kids: Vec<TM>,
    comment: bool,
    /// as an entry of a branch
    sep: bool,
    id: u32,
    /// has never been in a branch (nothing is said about trees taken out of one)
    fresh: bool,
}

fn tree_eq(t: &Tree<BasicStyle>, m: &TM, root: bool) -> Result<(), String> {
    let is = |c| t.condition(&c).unwrap();
    if t.id != m.id || t.id().unwrap() != m.id {
        return Err(format!("node has id {}, expected {}", t.id, m.id));
    }
    if is(TreeCondition::IsComment) != m.comment {
        return Err(format!("node {} is a comment: {}", m.id, !m.comment));
    }
    if is(TreeCondition::IsEmptyText) != (m.text == Some("")) {
        return Err(format!("node {} with text {:?} is empty: {}", m.id, m.text, is(TreeCondition::IsEmptyText)));
    }
    if (!root || m.fresh) && is(TreeCondition::NeedsSeparator) != m.sep {
        return Err(format!("node {} needs a separator: {}, expected {}", m.id, !m.sep, m.sep));
    }
    match (&t.contents, m.text) {
        (Contents::Text(s), Some(x)) => {
            if s != x || t.unwrap_text().unwrap() != x || t.num_children().unwrap().is_some() {
                return Err(format!("node {} has text {:?}", m.id, s));
            }
        }
        (Contents::Children(v), None) => {
            if v.len() != m.kids.len() || t.num_children().unwrap() != Some(v.len()) {
                return Err(format!("node {} has {} children", m.id, v.len()));
            }
            for (i, (c, k)) in v.iter().zip(&m.kids).enumerate() {
                tree_eq(c, k, false)?;
                let by_doc = t.unwrap_child(i).unwrap();
                if !std::ptr::eq(by_doc, c) {
                    return Err(format!("unwrap_child({}) is another node", i));
                }
                if i + 1 < v.len() {
                    let sib = (&v[i + 1]).unwrap_prev_sibling(t, i).unwrap();
                    if !std::ptr::eq(sib, c) {
                        return Err(format!("unwrap_prev_sibling({}) is another node", i));
                    }
                } else if !std::ptr::eq(t.unwrap_last_child().unwrap(), c) {
                    return Err("unwrap_last_child is another node".to_string());
                }
            }
        }
        _ => return Err(format!("node {} has the wrong kind of content", m.id)),
    }
    Ok(())
}

fn tree_text(m: &TM) -> String {
    match m.text {
        Some(t) => t.to_string(),
        None => {
            let mut s = String::new();
            for (i, k) in m.kids.iter().enumerate() {
                s.push_str(&tree_text(k));
                if k.sep && i + 1 < m.kids.len() {
                    s.push(',');
                }
            }
            s
        }
    }
}

fn u_tree(depth: usize) -> Universe {
    universe(
        format!("tree-history-{}", depth),
        format!(
            "every history of {} operations on a pool of trees: new text (empty or not), new branch from any sequence of up to 3 distinct pool members (moved or cloned), mark as comment, take a branch apart, reset ids",
            depth
        ),
        move |ch, st| {
            Tree::<BasicStyle>::reset_id();
            let mut next = 0u32;
            let mut pool: Vec<(Tree<BasicStyle>, TM)> = vec![];
            let mut log: Vec<String> = vec![];
            let text = |s: &'static str, next: &mut u32| {
                let t = Tree::new_text(&TREE_TEXT, s.to_string());
                let m = TM { text: Some(s), kids: vec![], comment: false, sep: false, id: *next, fresh: true };
                *next += 1;
                (t, m)
            };
            pool.push(text("a", &mut next));
            pool.push(text("b", &mut next));
            for _ in 0..depth {
                let n = pool.len();
                // operations: 0 text, 1 empty text, 2 reset, 3.. comment i, .. apart i, .. branch
                let k = ch.pick(3 + 2 * n + 2);
                if k == 0 {
                    log.push("text c".into());
                    pool.push(text("c", &mut next));
                } else if k == 1 {
                    log.push("empty text".into());
                    pool.push(text("", &mut next));
                } else if k == 2 {
                    log.push("reset ids".into());
                    Tree::<BasicStyle>::reset_id();
                    next = 0;
                } else if k < 3 + n {
                    let i = k - 3;
                    log.push(format!("comment {}", i));
                    let (t, mut m) = pool.remove(i);
                    m.comment = true;
                    pool.insert(i, (t.into_comment(), m));
                } else if k < 3 + 2 * n {
                    let i = k - 3 - n;
                    if pool[i].1.text.is_some() {
                        return Verdict::Skip;
                    }
                    log.push(format!("take apart {}", i));
                    let (t, m) = pool.remove(i);
                    if let Contents::Children(v) = t.contents {
                        pool.extend(v.into_iter().zip(m.kids));
                    }
                } else {
                    let clone = k == 3 + 2 * n + 1;
                    let want = ch.pick(4.min(n + 1));
                    let mut kids = vec![];
                    let mut picks = vec![];
                    if clone {
                        let mut left: Vec<usize> = (0..n).collect();
                        for _ in 0..want {
                            let i = left.remove(ch.pick(left.len()));
                            picks.push(i);
                            kids.push(pool[i].clone());
                        }
                    } else {
                        for _ in 0..want {
                            let i = ch.pick(pool.len());
                            picks.push(i);
                            kids.push(pool.remove(i));
                        }
                    }
                    log.push(format!("branch of {} {:?}", if clone { "clones" } else { "" }, picks));
                    let (ts, mut ms): (Vec<_>, Vec<_>) = kids.into_iter().unzip();
                    for i in 0..ms.len() {
                        ms[i].fresh = false;
                        ms[i].sep = !ms[i].comment && ms[i + 1..].iter().any(|m| !m.comment);
                    }
                    let t = Tree::new_branch(&TREE_BRANCH, ts);
                    pool.push((t, TM { text: None, kids: ms, comment: false, sep: false, id: next, fresh: true }));
                    next += 1;
                }
                st.add("transitions", 1);
            }
            st.add("states", 1);
            for (t, m) in &pool {
                st.add("runs", 1);
                if let Err(e) = tree_eq(t, m, true) {
                    return Verdict::Bad(format!("{}\nhistory: {:?}", e, log));
                }
                let s = ppp::pretty_print_to_string(t, 80).unwrap_or_else(|e| format!("{:?}", e));
                st.outcome(hash_of(&s));
                if s != tree_text(m) {
                    return Verdict::Bad(format!("prints {:?}, expected {:?}\nhistory: {:?}", s, tree_text(m), log));
                }
            }
            if st.want_sample {
                st.samples.push(format!("{:?}", log));
            }
            Verdict::Ok
        },
    )
}

/// Every pattern of comments and non-comments among the children of one branch.
fn u_siblings(max: usize) -> Universe {
    universe(
        format!("siblings-{}", max),
        format!("every branch of up to {} children, each a comment or not, each a text or a branch", max),
        move |ch, st| {
            let n = ch.pick(max + 1);
            let kinds: Vec<usize> = (0..n).map(|_| ch.pick(3)).collect();
            let kids: Vec<Tree<BasicStyle>> = kinds
                .iter()
                .map(|k| match k {
                    0 => Tree::new_text(&TREE_TEXT, "a".into()),
                    1 => Tree::new_text(&TREE_TEXT, "c".into()).into_comment(),
                    _ => Tree::new_branch(&TREE_BRANCH, vec![]),
                })
                .collect();
            let t = Tree::new_branch(&TREE_BRANCH, kids);
            st.add("states", 1);
            st.add("transitions", n as u64);
            st.add("runs", 1);
            for i in 0..n {
                let want = kinds[i] != 1 && kinds[i + 1..].iter().any(|k| *k != 1);
                let kid = (&t).unwrap_child(i).unwrap();
                if kid.condition(&TreeCondition::NeedsSeparator).unwrap() != want {
                    return Verdict::Bad(format!("child {} needs a separator: {}; kinds (1: comment) {:?}", i, !want, kinds));
                }
            }
            st.outcome(hash_of(&kinds));
            Verdict::Ok
        },
    )
}

/// Branches with more children than a test has.
fn u_crowds(max: usize) -> Universe {
    universe(
        format!("crowds-{}", max),
        format!("branches of 1 to {} children and of 1000 and 70000: none a comment, all, all but one (the first, a middle one, the last), every third, the first or last half, each a text or a branch; also after having been put in the opposite order in another branch", max),
        move |ch, st| {
            let n = ch.pick(max + 2);
            let n = if n < max { n + 1 } else { [1000, 70_000][n - max] };
            let how = ch.pick(8);
            let branch = ch.pick(2) == 1;
            let again = ch.pick(2) == 1;
            let comment = |i: usize| match how {
                0 => false,
                1 => true,
                2 => i != 0,
                3 => i != n / 2,
                4 => i != n - 1,
                5 => i % 3 == 0,
                6 => i < n / 2,
                _ => i >= n / 2,
            };
            let mut kids: Vec<Tree<BasicStyle>> = (0..n)
                .map(|i| {
                    let t = if branch && i % 2 == 0 { Tree::new_branch(&TREE_BRANCH, vec![]) } else { Tree::new_text(&TREE_TEXT, "a".into()) };
                    if comment(i) {
                        t.into_comment()
                    } else {
                        t
                    }
                })
                .collect();
            if again {
                kids.reverse();
                let t = Tree::new_branch(&TREE_BRANCH, kids);
                kids = match t.contents {
                    Contents::Children(c) => c,
                    _ => return Verdict::Bad("a branch has no children".into()),
                };
                kids.reverse();
            }
            let t = Tree::new_branch(&TREE_BRANCH, kids);
            st.add("states", 1);
            st.add("transitions", n as u64);
            st.add("runs", 1);
            let last = (0..n).rev().find(|i| !comment(*i));
            for i in 0..n {
                let want = !comment(i) && Some(i) != last;
                let kid = (&t).unwrap_child(i).unwrap();
                if kid.condition(&TreeCondition::NeedsSeparator).unwrap() != want
                    || kid.condition(&TreeCondition::IsComment).unwrap() != comment(i)
                {
                    return Verdict::Bad(format!("child {} of {}, pattern {}, should{} need a separator, and be a comment: {}", i, n, how, if want { "" } else { " not" }, comment(i)));
                }
            }
            st.outcome(hash_of(&(n, how, branch, again)));
            Verdict::Ok
        },
    )
}

/// Ids, over far more nodes than a document of the tests has.
fn u_many_ids() -> Universe {
    universe(
        "many-ids".into(),
        "300000 nodes created one after the other, texts and branches, in two rounds separated by a reset".into(),
        |ch, st| {
            let step = 2 + ch.pick(3) as u32;
            for round in 0..2 {
                Tree::<BasicStyle>::reset_id();
                for k in 0..300_000u32 {
                    let t: Tree<BasicStyle> = if k % step == 0 {
                        Tree::new_branch(&TREE_BRANCH, vec![])
                    } else {
                        Tree::new_text(&TREE_TEXT, String::new())
                    };
                    if t.id != k || (&t).id().unwrap() != k {
                        return Verdict::Bad(format!("node {} of round {} has id {}", k, round, t.id));
                    }
                }
            }
            st.add("states", 600_000);
            st.add("transitions", 600_000);
            st.add("runs", 1);
            Verdict::Ok
        },
    )
}

/// Two fresh threads, each with its own ids, under every schedule of their steps.
fn u_threads(depth: usize) -> Universe {
    use std::sync::mpsc::channel;
    universe(
        format!("threads-{}", depth),
        format!(
            "every interleaving of {} steps of two newly started threads, each step being: new text, new branch, clone, or reset ids; the ids each thread sees",
            depth
        ),
        move |ch, st| {
            let plan: Vec<(usize, usize)> = (0..depth).map(|_| (ch.pick(2), ch.pick(4))).collect();
            let workers: Vec<_> = (0..2)
                .map(|_| {
                    let (to, cmds) = channel::<usize>();
                    let (out, from) = channel::<Option<u32>>();
                    let h = std::thread::spawn(move || {
                        let mut last: Option<Tree<BasicStyle>> = None;
                        for c in cmds {
                            let r = match c {
                                0 => {
                                    last = Some(Tree::new_text(&TREE_TEXT, "a".into()));
                                    last.as_ref().map(|t| t.id)
                                }
                                1 => {
                                    last = Some(Tree::new_branch(&TREE_BRANCH, last.take().into_iter().collect()));
                                    last.as_ref().map(|t| t.id)
                                }
                                2 => {
                                    last = last.take().map(|t| t.clone());
                                    last.as_ref().map(|t| t.id)
                                }
                                _ => {
                                    Tree::<BasicStyle>::reset_id();
                                    None
                                }
                            };
                            out.send(r).unwrap();
                        }
                    });
                    (to, from, h)
                })
                .collect();
            let mut next = [0u32; 2];
            let mut last = [None; 2];
            let mut bad = None;
            for (k, &(th, op)) in plan.iter().enumerate() {
                let want = match op {
                    0 | 1 => {
                        last[th] = Some(next[th]);
                        next[th] += 1;
                        last[th]
                    }
                    2 => last[th],
                    _ => {
                        next[th] = 0;
                        None
                    }
                };
                let (to, from, _) = &workers[th];
                to.send(op).unwrap();
                let got = from.recv().unwrap();
                st.add("transitions", 1);
                if got != want && bad.is_none() {
                    bad = Some(format!("step {} yields the id {:?}, expected {:?}; (thread, step) {:?}", k, got, want, plan));
                }
            }
            for (to, _, h) in workers {
                drop(to);
                h.join().unwrap();
            }
            st.add("states", 1);
            st.add("runs", 1);
            st.outcome(hash_of(&(next, last)));
            match bad {
                Some(m) => Verdict::Bad(m),
                None => Verdict::Ok,
            }
        },
    )
}

const COLORS: [(&str, Color); 8] = [
    ("white", Color::White),
    ("black", Color::Black),
    ("red", Color::Red),
    ("green", Color::Green),
    ("yellow", Color::Yellow),
    ("blue", Color::Blue),
    ("magenta", Color::Magenta),
    ("cyan", Color::Cyan),
];
const TOKENS: [&str; 16] = [
    "", "bold", "_", "bold_", "white", "black", "red", "green", "yellow", "blue", "magenta", "cyan", "Red", " ", "dark",
    "BOLD_",
];
static LABELS: Lazy<Vec<&'static str>> = Lazy::new(|| {
    let mut v: Vec<&'static str> = vec![];
    for a in TOKENS {
        for b in TOKENS {
            for c in TOKENS {
                v.push(Box::leak(format!("{}{}{}", a, b, c).into_boxed_str()));
            }
        }
    }
    v.sort();
    v.dedup();
    v
});

fn u_labels() -> Universe {
    universe(
        "labels".into(),
        format!("every label made of up to 3 of the {} tokens {:?}", TOKENS.len(), TOKENS),
        |ch, st| {
            let l = LABELS[ch.pick(LABELS.len())];
            let got = ink(&BasicStyle::from(l));
            let (bold, name) = match l.strip_prefix("bold_") {
                Some(x) => (true, x),
                None => (false, l),
            };
            let want = match COLORS.iter().find(|c| c.0 == name) {
                Some(c) => ink(&BasicStyle { color: c.1, bold }),
                None => PLAIN,
            };
            st.add("states", 1);
            st.add("transitions", 1);
            st.add("runs", 1);
            st.outcome(hash_of(&got));
            if got != want {
                return Verdict::Bad(format!("label {:?} gives {:?}, expected {:?}", l, got, want));
            }
            Verdict::Ok
        },
    )
}

fn all_styles(k: usize) -> BasicStyle {
    BasicStyle { color: COLORS[k % 8].1, bold: k >= 8 }
}

fn u_combine() -> Universe {
    universe(
        "combine".into(),
        "every triple of the 16 styles, combined both ways; every sequence of two builder calls".into(),
        |ch, st| {
            let (a, b, c) = (all_styles(ch.pick(16)), all_styles(ch.pick(16)), all_styles(ch.pick(16)));
            let f = |x: &BasicStyle, y: &BasicStyle| BasicStyle::combine(x, y);
            let ab = f(&a, &b);
            let want = (ink(&b).0, a.bold || b.bold);
            st.add("states", 1);
            st.add("transitions", 5);
            st.add("runs", 1);
            st.outcome(hash_of(&(ink(&a), ink(&b), ink(&c))));
            if ink(&ab) != want {
                return Verdict::Bad(format!("{:?} around {:?} gives {:?}", a, b, ab));
            }
            let (l, r) = (f(&ab, &c), f(&a, &f(&b, &c)));
            if ink(&l) != ink(&r) {
                return Verdict::Bad(format!("combining {:?}, {:?}, {:?} is not associative", a, b, c));
            }
            let built = [
                (BasicStyle::new(), PLAIN),
                (BasicStyle::default(), PLAIN),
                (BasicStyle::new().color(a.color), (ink(&a).0, false)),
                (BasicStyle::new().bold(), ("White", true)),
                (a.color(b.color), (ink(&b).0, a.bold)),
                (a.bold(), (ink(&a).0, true)),
                (a.color(b.color).bold(), (ink(&b).0, true)),
                (a.bold().color(b.color), (ink(&b).0, true)),
            ];
            for (got, want) in built {
                if ink(&got) != want {
                    return Verdict::Bad(format!("built {:?}, expected {:?}", got, want));
                }
            }
            Verdict::Ok
        },
    )
}

fn u_overrides(depth: usize) -> Universe {
    const L: [&str; 7] = ["red", "open", "bold_blue", "red ", "long_label_1", "long_label_2", "song_label_1"];
    universe(
        format!("overrides-{}", depth),
        format!("every sequence of {} style settings (node style, or override of one of the labels {:?}) on a text or branch node", depth, L),
        move |ch, st| {
            let text = ch.pick(2) == 0;
            let mut t: Tree<BasicStyle> = if text {
                Tree::new_text(&TREE_TEXT, "a".into())
            } else {
                Tree::new_branch(&TREE_BRANCH, vec![Tree::new_text(&TREE_TEXT, "b".into())])
            };
            let mut node = PLAIN;
            let mut over: Vec<(&str, Ink)> = vec![];
            let mut log = vec![];
            for _ in 0..depth {
                let s = all_styles([2, 5, 9, 15][ch.pick(4)]);
                let k = ch.pick(1 + L.len());
                if k == 0 {
                    t = t.with_style(s);
                    node = ink(&s);
                    log.push(format!("with_style({:?})", s));
                } else {
                    t = t.with_style_override(L[k - 1], s);
                    over.push((L[k - 1], ink(&s)));
                    log.push(format!("with_style_override({:?}, {:?})", L[k - 1], s));
                }
            }
            let t = if ch.pick(2) == 1 { t.into_comment() } else { t };
            st.add("states", 1);
            st.add("runs", 1);
            st.add("transitions", depth as u64);
            let bad = |m: String| Verdict::Bad(format!("{}\n{:?}", m, log));
            if ink(&(&t).node_style().unwrap()) != node {
                return bad(format!("node style {:?}, expected {:?}", t.node_style, node));
            }
            for l in L.iter().chain(&["cyan", "bold_red", "close"]) {
                let got = ink(&(&t).lookup_style(l).unwrap());
                let may: Vec<Ink> = over.iter().filter(|x| x.0 == *l).map(|x| x.1).collect();
                let ok = if may.is_empty() { got == ink(&BasicStyle::from(*l)) } else { may.contains(&got) };
                st.outcome(hash_of(&got));
                if !ok {
                    return bad(format!("label {:?} gives {:?}; overrides {:?}", l, got, may));
                }
            }
            Verdict::Ok
        },
    )
}

fn c21(t: Tier) -> Vec<Universe> {
    match t {
        Tier::Quick => vec![u_tree(4), u_labels(), u_combine(), u_overrides(3), u_siblings(9), u_crowds(66), u_many_ids(), u_threads(4)],
        Tier::Thorough => vec![
            u_tree(5),
            u_labels(),
            u_combine(),
            u_overrides(4),
            u_siblings(12),
            u_crowds(300),
            u_many_ids(),
            u_threads(6),
        ],
    }
}

pub fn props() -> Vec<Prop> {
    fn p(id: &'static str, universes: fn(Tier) -> Vec<Universe>) -> Prop {
        Prop { id, level: "model_checking", universes, assumptions: &[] }
    }
    vec![p("C16", c16), p("C17", c17), p("C20", c20), p("C21", c21)]
}
