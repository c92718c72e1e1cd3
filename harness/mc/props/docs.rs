//! C01..C09, C11: properties of printing one document, over enumerated notations and documents.

use super::{Prop, Tier};
use crate::doc::{Ctx, DRef};
use crate::explore::*;
use crate::gen::*;
use crate::props::misc::universe;
use crate::model::*;
use crate::run::*;
use partial_pretty_printer as ppp;
use ppp::PrettyDoc;
use std::sync::Arc;

pub type Source = Arc<dyn Fn(&mut Chooser) -> Option<Proto> + Send + Sync>;

pub struct Case<'a> {
    pub proto: &'a Proto,
    pub root: &'a Node,
    pub width: u16,
}
impl<'a> Case<'a> {
    pub fn show(&self) -> String {
        format!("width {}, document:\n{}", self.width, self.proto.show())
    }
}

pub type CaseCheck = fn(&Case, &mut Chooser, &mut Stats) -> Result<(), String>;

pub struct Space {
    pub name: String,
    pub describe: String,
    pub src: Source,
    pub widths: Vec<u16>,
}

pub fn w(n: u16) -> Vec<u16> {
    (0..=n).collect()
}

pub fn over(space: Space, check: CaseCheck) -> Universe {
    let Space {
        name,
        describe,
        src,
        widths,
    } = space;
    let d = format!("{}; widths {:?}", describe, widths);
    Universe {
        name,
        describe: d,
        body: Arc::new(move |ch, st| {
            let proto = match src(ch) {
                Some(p) => p,
                None => return Verdict::Skip,
            };
            let root = match proto.build(false) {
                Some(r) => r,
                None => return Verdict::Skip,
            };
            let width = widths[ch.pick(widths.len())];
            let case = Case {
                proto: &proto,
                root: &root,
                width,
            };
            st.add("states", 1);
            let r = check(&case, ch, st);
            match r {
                Ok(()) => {
                    if st.want_sample {
                        st.samples.push(case.show());
                    }
                    Verdict::Ok
                }
                Err(m) => Verdict::Bad(format!("{}\n{}", m, case.show())),
            }
        }),
    }
}

// ---- spaces ---------------------------------------------------------------------------------

pub fn sp_gram(name: &str, gr: Gram, max: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("{}<={}", name, max),
        describe: format!(
            "one document node, every notation of at most {} operators over the {} grammar",
            max, name
        ),
        src: Arc::new(move |ch| Some(Proto::branch(gr.gen_upto(ch, max)?, vec![]))),
        widths,
    }
}

pub fn sp_rooted(name: &str, gr: Gram, max: usize, ks: &'static [usize], nleaf: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("{}<={}/kids{:?}x{}", name, max, ks, nleaf),
        describe: format!(
            "a branch node with every notation of at most {} operators over the {} grammar, with {:?} children drawn from {} leaf shapes",
            max, name, ks, nleaf
        ),
        src: Arc::new(move |ch| {
            let s = 1 + ch.pick(max);
            gen_rooted(ch, &gr, s, ks, nleaf)
        }),
        widths,
    }
}

/// Folds with a generated join.
pub fn sp_joins(name: &str, gr: Gram, max: usize, kids: usize, widths: Vec<u16>) -> Space {
    let wraps = if kids > 4 { 3 } else { 1 };
    Space {
        name: format!("{}<={}/kids-x{}", name, max, kids),
        describe: format!(
            "folds whose join is any notation of at most {} operators over the {} grammar, in {} contexts, over {} lists of children with and without the condition",
            max, name, wraps, kids
        ),
        src: Arc::new(move |ch| {
            let s = 1 + ch.pick(max);
            let join = gr.gen(ch, s, Cx { fold: true, join: true, ..Cx::default() })?;
            let first = if ch.pick(2) == 0 { child(0) } else { flat(child(0)) };
            let f = fold(first, join);
            let n = match ch.pick(wraps) {
                0 => cats(vec![lit("<"), f, lit(">")]),
                1 => ind("  ", cats(vec![N::Nl, f, N::Nl, lit(";")])),
                _ => alt(flat(f.clone()), f),
            };
            let list: &[usize] = [
                &[0, 1, 0][..],
                &[1, 0, 1],
                &[0, 1, 4],
                &[5, 1, 1],
                &[1, 0, 0, 1],
                &[0, 2, 1],
                &[0, 0],
                &[1, 1, 5],
                &[8, 7, 1, 1],
                &[3, 1],
                &[4, 5, 4, 5],
                &[5, 1, 5, 1, 5],
                &[4, 1, 0, 4, 4, 1],
            ][ch.pick(kids)];
            Some(Proto::branch(n, list.iter().map(|k| leaf(*k)).collect()))
        }),
        widths,
    }
}

fn count_left(n: &N) -> usize {
    match n {
        N::Left => 1,
        N::Flat(a) | N::Indent(_, _, a) | N::Style(_, a) => count_left(a),
        N::Cat(a, b) | N::Alt(a, b) | N::Check(_, _, a, b) => count_left(a) + count_left(b),
        N::Fold(a, b) => count_left(a) + count_left(b),
        N::Count(a, b, c) => count_left(a) + count_left(b) + count_left(c),
        _ => 0,
    }
}

/// Folds over 0 to 33 children.
fn sp_fold_sizes(max: usize, most: usize, widths: Vec<u16>) -> Space {
    const SIZES: [usize; 16] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0, 1, 17, 33, 70];
    let sizes: Vec<usize> = SIZES.iter().copied().filter(|n| *n <= most).collect();
    Space {
        name: format!("fold-sizes<={}/{}", max, most),
        describe: format!(
            "folds over 0 to 12 and 17, 33, 70 (at most {}) children of 3 alternating shapes, with and without the condition, whose join is any notation of at most {} operators over the join grammar with styles: plain, flat, styled and indented, as the first of two options that repeats in the second",
            most, max
        ),
        src: Arc::new(move |ch| {
            let s = 1 + ch.pick(max);
            let join = JOIN_STY.gen(ch, s, Cx { fold: true, join: true, ..Cx::default() })?;
            // (a join that repeats what is to its left grows exponentially)
            let most = if count_left(&join) > 1 { 5 } else { sizes.len() };
            let n = sizes[ch.pick(most)];
            let f = fold(child(0), join);
            let note = match ch.pick(5) {
                0 => f,
                1 => flat(f),
                2 => inds(">", 1, sty(2, cat(N::Nl, f))),
                3 => ind("  ", flat(sty(1, cats(vec![N::Nl, f, lit(".")])))),
                _ => alt(flat(f.clone()), f),
            };
            let shift = ch.pick(2);
            let kids = (0..n).map(|i| match (i + shift) % 3 {
                0 => leaf(1),
                1 => style_leaf(0),
                _ => leaf(0),
            });
            Some(Proto::branch(note, kids.collect()))
        }),
        widths,
    }
}

/// Every character there is.
fn sp_every_char(kinds: usize, widths: Vec<u16>) -> Space {
    let all = AllChars::get();
    Space {
        name: format!("every-char-{}", kinds),
        describe: format!("every character of Unicode, between two letters, in the first {} of these places: as a text after which a choice fits or does not, as the literal that is the first option of a choice, and as the indentation of a line that holds a choice", kinds),
        src: Arc::new(move |ch| {
            let kind = ch.pick(kinds);
            let (_, text) = all.pick(ch);
            let end = || alt(lit(";"), N::Nl);
            Some(match kind {
                0 => Proto::branch(cat(child(0), end()), vec![t(text)]),
                1 => Proto::branch(alt(lit(text), cat(N::Nl, lit("-"))), vec![]),
                _ => Proto::branch(ind(text, cats(vec![N::Nl, end()])), vec![]),
            })
        }),
        widths,
    }
}

/// Many children that are the same, and one that is not.
fn sp_one_odd(sizes: &'static [usize], widths: Vec<u16>) -> Space {
    Space {
        name: "one-odd".into(),
        describe: format!(
            "7 templates over {:?} children, all of them one column wide except for one -- any of them -- that has one of 11 other shapes, or a condition or a style",
            sizes
        ),
        src: Arc::new(move |ch| {
            let n = sizes[ch.pick(sizes.len())];
            let k = ch.pick(n);
            let odd = match ch.pick(12) {
                0 => style_leaf(0),
                1 => t("x").conds(0b11),
                i => leaf(i),
            };
            let tp = [0, 1, 2, 3, 4, 7, 11][ch.pick(7)];
            let kids = (0..n).map(|i| if i == k { odd.clone() } else { t("x") }).collect();
            Some(Proto::branch(template(tp), kids))
        }),
        widths,
    }
}

/// Folds that check every position, over every pattern of conditions.
fn sp_fold_checks(small: usize, most: usize, widths: Vec<u16>) -> Space {
    const SIZES: [usize; 16] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0, 1, 17, 33, 70];
    let sizes: Vec<usize> = SIZES.iter().copied().filter(|n| *n <= most).collect();
    Space {
        name: format!("fold-checks{}/{}", small, most),
        describe: format!(
            "folds (plain, flat, styled, indented) whose join checks each of 8 positions, between any two of 7 ways to join (with commas, newlines, a choice, another child, only one side), over 0 to 12 and 17, 33, 70 (at most {}) children, the node itself with and without the condition, and every pattern of the condition on its children (beyond {} children: 6 patterns)",
            most, small
        ),
        src: Arc::new(move |ch| {
            let n = sizes[ch.pick(sizes.len())];
            let pos = [
                Pos::Here,
                Pos::Left,
                Pos::Right,
                Pos::Child(0),
                Pos::Child(1),
                Pos::Child(2),
                Pos::Child(-1),
                Pos::Child(-3),
            ][ch.pick(8)]
            .clone();
            match pos {
                Pos::Child(i) if (if i < 0 { -i } else { i + 1 }) as usize > n => return None,
                _ => (),
            }
            let how = |k: usize| match k {
                0 => cats(vec![N::Left, lit(","), N::Right]),
                1 => cats(vec![N::Left, N::Nl, N::Right]),
                2 => N::Left,
                3 => N::Right,
                4 => cats(vec![N::Left, child(-1), N::Right]),
                5 => cats(vec![N::Left, alt(lit(" "), N::Nl), N::Right]),
                _ => cat(N::Right, N::Left),
            };
            let a = ch.pick(7);
            let b = ch.pick(7);
            if a == b {
                return None;
            }
            let f = fold(child(0), chk(0, pos, how(a), how(b)));
            let note = match ch.pick(4) {
                0 => f,
                1 => flat(f),
                2 => sty(0, cats(vec![lit("["), f, lit("]")])),
                _ => inds(">", 1, f),
            };
            let own = ch.pick(2) as u8;
            let conds: Vec<u8> = if n <= small {
                (0..n).map(|_| ch.pick(2) as u8).collect()
            } else {
                let p = ch.pick(6);
                (0..n)
                    .map(|i| match p {
                        0 => 0,
                        1 => 1,
                        2 => (i == n - 1) as u8,
                        3 => (i % 2 == 0) as u8,
                        4 => (i < n / 2) as u8,
                        _ => (i == 0) as u8,
                    })
                    .collect()
            };
            let kids = conds.iter().enumerate().map(|(i, c)| t(LETTERS[i % 9]).conds(*c)).collect();
            Some(Proto::branch(note, kids).conds(own))
        }),
        widths,
    }
}
const LETTERS: [S; 9] = ["p", "q", "r", "s", "t", "u", "v", "w", "y"];

pub fn sp_doc2(maxk: usize, nleaf: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("doc2-k{}x{}", maxk, nleaf),
        describe: format!(
            "every document of depth 2: {} branch notations, 0..{} children, {} leaf shapes",
            N_TEMPLATE, maxk, nleaf
        ),
        src: Arc::new(move |ch| Some(gen_doc2(ch, maxk, nleaf))),
        widths,
    }
}

pub fn sp_doc3(ts: &'static [usize], leaves: &'static [usize], k1: usize, k2: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("doc3-t{:?}-l{:?}-k{}x{}", ts, leaves, k1, k2),
        describe: format!(
            "every document of depth 3: templates {:?} over templates or leaves {:?}, up to {} children and {} grandchildren each",
            ts, leaves, k1, k2
        ),
        src: Arc::new(move |ch| Some(gen_doc3(ch, ts, leaves, k1, k2))),
        widths,
    }
}

/// Every way to refer to a child, on children that can all be told apart.
pub fn sp_index(max: usize, maxk: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("index<={}/kids<={}", max, maxk),
        describe: format!(
            "a branch node with every notation of at most {} operators over children and checks at every index from -3 to 2 (and neighbours in folds), with 0..{} children p, q, r, s, each satisfying the condition or not",
            max, maxk
        ),
        src: Arc::new(move |ch| {
            let n = INDEX.gen_upto(ch, max)?;
            let k = ch.pick(maxk + 1);
            let kids = (0..k).map(|i| t(["p", "q", "r", "s"][i]).conds(ch.pick(2) as u8)).collect();
            Some(Proto::branch(n, kids))
        }),
        widths,
    }
}

fn mentions_child(n: &N) -> bool {
    match n {
        N::Child(_) => true,
        N::Flat(a) | N::Indent(_, _, a) | N::Style(_, a) => mentions_child(a),
        N::Cat(a, b) | N::Alt(a, b) | N::Check(_, _, a, b) => mentions_child(a) || mentions_child(b),
        _ => false,
    }
}

/// A node and its only child, with both notations generated.
pub fn sp_pair(total: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("pair<={}", total),
        describe: format!(
            "a node and its child, with all notations of together at most {} operators (texts, newlines, end-of-lines, choices; indentation and the child in the outer one, marks and flat in the inner one)",
            total
        ),
        src: Arc::new(move |ch| {
            let s = 1 + ch.pick(total - 1);
            let n = PAIR_ROOT.gen(ch, s, Cx::default())?;
            if !mentions_child(&n) {
                return None;
            }
            let m = PAIR_KID.gen_upto(ch, total - s)?;
            Some(Proto::branch(n, vec![Proto::branch(m, vec![])]))
        }),
        widths,
    }
}

/// A text node with a generated notation.
pub fn sp_texty(name: &str, gr: Gram, max: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("{}<={}", name, max),
        describe: format!(
            "a text node with every notation of at most {} operators over the {} grammar",
            max, name
        ),
        src: Arc::new(move |ch| {
            let n = gr.gen_upto(ch, max)?;
            Some(Proto::text(n, "信x"))
        }),
        widths,
    }
}

/// A node and its only child, a text node, with both notations generated.
pub fn sp_pair_text(total: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("pair-text<={}", total),
        describe: format!(
            "a node and its child, a text node, with all notations of together at most {} operators over the pair and the lean text grammar",
            total
        ),
        src: Arc::new(move |ch| {
            let s = 1 + ch.pick(total - 1);
            let n = PAIR_ROOT.gen(ch, s, Cx::default())?;
            if !mentions_child(&n) {
                return None;
            }
            let m = TEXTY_LEAN.gen_upto(ch, total - s)?;
            Some(Proto::branch(n, vec![Proto::text(m, "tu")]))
        }),
        widths,
    }
}

/// A node and its two children, all three with generated notations.
pub fn sp_trio(root: usize, kid: usize, total: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("trio<={}/{}/{}", root, kid, total),
        describe: format!(
            "a node with at most {} operators over its two children, newlines and choices, and text nodes as children with notations of at most {} operators each (text, newline, end-of-line, mark, choices), all three of together at most {}",
            root, kid, total
        ),
        src: Arc::new(move |ch| {
            let s = 1 + ch.pick(root);
            let n = TRIO_ROOT.gen(ch, s, Cx::default())?;
            if !mentions_child(&n) {
                return None;
            }
            let mut left = total - s;
            let mut kids = vec![];
            for i in 0..2 {
                let most = kid.min(left - (1 - i));
                let k = 1 + ch.pick(most);
                left -= k;
                kids.push(Proto::text(TRIO_KID.gen(ch, k, Cx::default())?, ["pq", "r"][i]));
            }
            Some(Proto::branch(n, kids))
        }),
        widths,
    }
}

/// Something generated in the middle of a larger document: always at column 48, but what is before it on the line,
/// after it on the line, above and below it differs.
pub const N_SURROUND: usize = 12;
fn surround(k: usize, x: Proto) -> Proto {
    const P48: S = "123456789 123456789 123456789 123456789 12345678";
    const P24: S = "abcdefghi abcdefghi abcd";
    const P16: S = "abcdefghi abcdef";
    const P12: S = "abcdefghi ab";
    const P6: S = "abcde ";
    let or_nl = |s| alt(lit(s), N::Nl);
    let rows = |n: usize| -> Vec<N> { (0..n).flat_map(|i| vec![N::Nl, lit(["a", "bb", "", "\u{4FE1}"][i % 4])]).collect() };
    match k {
        0 => Proto::branch(cat(lit(P48), child(0)), vec![x]),
        1 => Proto::branch(cats(vec![sty(0, lit(P16)), lit(P16), sty(1, lit(P16)), child(0), lit("]")]), vec![x]),
        2 => {
            let mut v = vec![lit(P6); 8];
            v.extend(vec![child(0), or_nl(" "), lit("q")]);
            Proto::branch(cats(v), vec![x])
        }
        3 => Proto::branch(
            cats(vec![lit("1"), N::Nl, lit("22"), ind(P16, inds(P16, 0, ind(P16, cat(N::Nl, child(0))))), N::Nl, lit("z")]),
            vec![x],
        ),
        4 => {
            let mut v = rows(7);
            v.push(ind(P24, sty(1, ind(P24, cats(vec![N::Nl, child(0), child(1)])))));
            v.extend(rows(7));
            Proto::branch(cats(v), vec![x, leaf(3)])
        }
        5 => {
            let mut p = x;
            for i in 0..8 {
                p = Proto::branch(cats(vec![lit(P6), child(0), if i % 2 == 0 { lit(")") } else { or_nl(";") }]), vec![p]);
            }
            p
        }
        6 => Proto::branch(
            cats(vec![lit(P48), child(0), child(1), child(2), child(1), child(2), child(1), child(3)]),
            vec![x, leaf(0), leaf(9), leaf(11)],
        ),
        7 => {
            let mut v = vec![lit(P24), sty(0, lit(P24)), child(0), or_nl(" "), child(1), or_nl(","), child(1), or_nl(" "), child(1), N::Eol];
            v.extend(rows(4));
            Proto::branch(cats(v), vec![x, t("l")])
        }
        8 => {
            let mut p = x;
            for _ in 0..4 {
                p = Proto::branch(cats(vec![lit("("), N::Nl, lit("-"), ind(P12, cat(N::Nl, child(0))), N::Nl, lit(")")]), vec![p]);
            }
            p
        }
        9 => Proto::branch(
            alt(
                cats(vec![lit(P48), flat(child(0)), lit(P16)]),
                cats(vec![lit("["), ind(P48, cats(vec![N::Nl, child(0), lit(","), N::Nl, child(1)])), N::Nl, lit("]")]),
            ),
            vec![x, leaf(5)],
        ),
        10 => Proto::branch(
            cats(vec![lit(P48), fold(child(0), cats(vec![N::Left, or_nl(","), N::Right]))]),
            vec![x, leaf(0), leaf(3), leaf(1)],
        ),
        11 => Proto::branch(
            ind(P48, cats(vec![N::Nl, fold(child(0), cats(vec![N::Left, lit(","), N::Nl, N::Right]))])),
            vec![leaf(0), leaf(10), x, leaf(1), leaf(3)],
        ),
        _ => unreachable!(),
    }
}
fn sp_surround(name: &str, max: usize, gen: fn(&mut Chooser, usize) -> Option<Proto>, widths: Vec<u16>) -> Space {
    Space {
        name: format!("surround-{}<={}", name, max),
        describe: format!(
            "{} with every notation of at most {} operators, in {} surroundings, always at column 48: after 1, 3 or 8 texts or 3 levels of indentation; at the end of a chain of 8 nodes on one line, or of 4 nodes on lines of their own; first of 4, third of 5 in a fold; with 0 to 7 lines above and below and 0 to 6 further parts on its line, some of them choices",
            name, max, N_SURROUND
        ),
        src: Arc::new(move |ch| {
            let x = gen(ch, max)?;
            Some(surround(ch.pick(N_SURROUND), x))
        }),
        widths,
    }
}
fn gen_text_node(ch: &mut Chooser, max: usize) -> Option<Proto> {
    Some(Proto::text(TEXTY.gen_upto(ch, max)?, "\u{4FE1}x"))
}
fn gen_branch_node(ch: &mut Chooser, max: usize) -> Option<Proto> {
    Some(Proto::branch(PLAIN.gen_upto(ch, max)?, vec![leaf(0)]))
}
fn gen_styled_node(ch: &mut Chooser, max: usize) -> Option<Proto> {
    Some(Proto::text(STYLES_KID.gen_upto(ch, max)?, "tu"))
}
fn gen_mismatched_node(ch: &mut Chooser, max: usize) -> Option<Proto> {
    let n = MISMATCH.gen_upto(ch, max)?;
    let k = ch.pick(4);
    Some(if k == 3 { Proto::text(n, "tt") } else { Proto::branch(n, (0..k).map(leaf).collect()) })
}
/// Of a branch node in a surrounding.
const PLAIN: Gram = Gram {
    leaves: &[g::la, g::nl, g::eol, g::mark, g::c0],
    unary: &[g::flat, g::ind_gt],
    right_cat: true,
    ..CORE
};

/// Counts of every number of children.
fn sp_counts(max: usize) -> Space {
    Space {
        name: format!("counts<={}", max),
        describe: format!("a count of each number of children from 0 to {} (and around powers of two up to 1030), in 9 places: alone, flat, indented, styled, in a choice, before another, in a check, as a flat child, as the right side of a fold", max),
        src: Arc::new(move |ch| {
            const MORE: [usize; 12] = [127, 128, 129, 255, 256, 257, 299, 300, 511, 512, 999, 1030];
            let n = ch.pick(max + 1 + MORE.len());
            let n = if n <= max { n } else { MORE[n - max - 1] };
            let c = || cnt(cat(lit("z"), N::Nl), cats(vec![lit("o"), child(0)]), cats(vec![lit("m"), alt(child(-1), N::Nl), child(1)]));
            let node = |note: N| Proto::branch(note, (0..n).map(|i| t(if i % 2 == 0 { "x" } else { "yz" })).collect());
            Some(match ch.pick(9) {
                0 => node(c()),
                1 => node(flat(c())),
                2 => node(ind("> ", cat(N::Nl, flat(c())))),
                3 => node(sty(1, flat(inds("|", 2, cat(N::Nl, c()))))),
                4 => node(alt(cats(vec![lit("<"), c(), lit(">")]), c())),
                5 => node(cats(vec![c(), lit(","), flat(c())])),
                6 => node(chk(0, Pos::Here, lit("c"), cat(lit("="), c()))),
                7 => Proto::branch(flat(cat(child(0), child(1))), vec![node(c()), t("e")]),
                _ => Proto::branch(fold(child(0), cats(vec![N::Left, alt(lit(" "), N::Nl), flat(N::Right)])), vec![t("s"), node(c()), node(c())]),
            })
        }),
        widths: vec![0, 5, 30],
    }
}

/// References to children by index, in nodes with few to very many children.
fn sp_indices(max: usize) -> Space {
    static TEXTS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    Space {
        name: format!("indices<={}", max),
        describe: format!(
            "a reference to a child, or a check of one, or both, by every index from -n-2 to n+2 on nodes with n = 0 to {} children (within 3 of -n, -n/2, 0, n/2, n and of +-powers of two for n up to 1030): alone, in a count, a fold, flat, in a choice, nested in another node",
            max
        ),
        src: Arc::new(move |ch| {
            let texts = TEXTS.get_or_init(|| (0..1100).map(|i| i.to_string()).collect());
            const MORE: [usize; 9] = [63, 64, 65, 127, 128, 255, 256, 257, 1030];
            let n = ch.pick(max + 1 + MORE.len());
            let (n, i) = if n <= max {
                (n, ch.pick(2 * n + 5) as isize - n as isize - 2)
            } else {
                let n = MORE[n - max - 1];
                let k = n as isize;
                let mut at = vec![];
                for p in [0, k / 2, k, 8, 16, 32, 64, 128, 256, 512, 1024] {
                    for d in -3..=3 {
                        at.push(p + d);
                        at.push(d - p);
                    }
                }
                at.retain(|i| i.abs() <= k + 3);
                at.sort();
                at.dedup();
                (n, at[ch.pick(at.len())])
            };
            let kids: Vec<Proto> = (0..n).map(|k| t(&texts[k]).conds((k % 3 == 1) as u8)).collect();
            let chk_i = || chk(0, Pos::Child(i), lit("yes"), lit("no"));
            let note = match ch.pick(9) {
                0 => child(i),
                1 => chk_i(),
                2 => cats(vec![child(i), lit(","), chk_i(), N::Nl, child(i)]),
                3 => cnt(lit("none"), lit("one"), cats(vec![lit("["), child(i), chk_i(), lit("]")])),
                4 => ind("> ", cat(N::Nl, flat(alt(cat(child(i), lit("!")), N::Nl)))),
                5 => alt(cats(vec![lit("<"), child(i), lit(">")]), cat(N::Nl, chk_i())),
                // (on the last child only)
                6 if n <= 13 => fold(child(i), cats(vec![N::Left, lit(";"), N::Right, chk_i()])),
                7 if n <= 13 => fold(lit("f"), cats(vec![N::Left, chk(0, Pos::Right, child(i), lit("."))])),
                8 => sty(1, cats(vec![chk_i(), child(i)])),
                _ => return None,
            };
            let node = Proto::branch(note, kids);
            Some(if ch.pick(2) == 0 { node } else { Proto::branch(cats(vec![child(1), lit(" "), child(-1)]), vec![t("u"), t("v"), node]) })
        }),
        widths: vec![0, 9, 30],
    }
}

/// Documents far larger than the exhaustively enumerated ones, in a few regular shapes.
#[derive(Clone, Copy)]
pub enum Big {
    /// (template, children): alternating leaves
    Wide(usize, usize),
    /// (chain kind, depth)
    Deep(usize, usize),
    /// (template, characters): long texts
    Long(usize, usize),
}
fn big(b: Big, x: usize, y: usize) -> Proto {
    match b {
        Big::Wide(tp, n) => Proto::branch(
            template(tp),
            (0..n).map(|i| leaf(if i % 3 == 1 { y } else { x })).collect(),
        ),
        Big::Deep(kind, m) => {
            let mut p = leaf(x);
            for i in 0..m {
                p = Proto::branch(chain_note(kind), vec![leaf(if i % 3 == 1 { y } else { x }), p]);
            }
            p
        }
        Big::Long(tp, n) => {
            let s: S = Box::leak("lorem ".repeat(n / 6 + 1)[..n].to_string().into_boxed_str());
            Proto::branch(template(tp), vec![leaf(x), t(s), leaf(y), t(s)])
        }
    }
}

/// Large documents: sizes at which a counter, a cache or a limit may come into play.
pub fn sp_big(t: Tier, pairs: &'static [(usize, usize)], widths: Vec<u16>) -> Space {
    let q = t == Tier::Quick;
    let wide: &[usize] = if q { &[17, 33, 66, 130, 258, 520, 1030] } else { &[17, 33, 66, 130, 258, 300, 520, 1030, 2050, 4100] };
    let deep: &[usize] = if q { &[17, 40, 130, 260] } else { &[17, 40, 66, 130, 260, 530, 1030] };
    let long: &[usize] = if q { &[40, 300, 1100] } else { &[40, 80, 255, 256, 300, 1100] };
    let mut shapes = vec![];
    for n in wide {
        for tp in [0, 1, 2, 3, 4, 7, 11] {
            shapes.push(Big::Wide(tp, *n));
        }
    }
    for n in deep {
        for k in [0, 1, 3] {
            shapes.push(Big::Deep(k, *n));
        }
    }
    for n in long {
        for tp in [0, 1, 7] {
            shapes.push(Big::Long(tp, *n));
        }
    }
    Space {
        name: "big".into(),
        describe: format!(
            "large documents: 7 templates over {:?} children, 3 kinds of chains {:?} levels deep, 3 templates over texts of {:?} characters; leaf shapes in pairs {:?}",
            wide, deep, long, pairs
        ),
        src: Arc::new(move |ch| {
            let b = shapes[ch.pick(shapes.len())];
            let (x, y) = pairs[ch.pick(pairs.len())];
            Some(big(b, x, y))
        }),
        widths,
    }
}

/// Long and deeply nested notations of one node.
pub fn sp_chain(max: usize, depths: &'static [usize], widths: Vec<u16>) -> Space {
    const W: usize = 15;
    fn wrap(k: usize, n: N) -> N {
        let or_nl = |s| alt(lit(s), N::Nl);
        match k {
            0 => cat(lit("a"), n),
            1 => cat(n, lit("b")),
            2 => ind("  ", n),
            3 => sty(0, n),
            4 => flat(n),
            5 => alt(n, lit("z")),
            6 => alt(lit("longer text"), n),
            7 => cat(n, N::Nl),
            8 => cat(N::Nl, n),
            9 => cat(child(0), n),
            10 => cat(n, child(1)),
            11 => chk(0, Pos::Child(0), n, lit("no")),
            12 => cat(n, or_nl(" ")),
            13 => cat(or_nl("w"), n),
            14 => inds("|", 1, n),
            _ => unreachable!(),
        }
    }
    Space {
        name: format!("chain{}x{:?}", max, depths),
        describe: format!(
            "4 notations within {:?} wrappers that repeat a pattern of up to {} from {} kinds (text, newline, child, choice between text and newline, before or after; indent, styled indent, style, flat, either option of a choice, check), over two children",
            depths, max, W
        ),
        src: Arc::new(move |ch| {
            let depth = depths[ch.pick(depths.len())];
            let m = 1 + ch.pick(max);
            let pat: Vec<usize> = (0..m).map(|_| ch.pick(W)).collect();
            let mut n = match ch.pick(4) {
                0 => lit("x"),
                1 => child(1),
                2 => cats(vec![lit("y"), N::Mark, N::Nl, lit("y")]),
                _ => alt(child(0), cat(N::Nl, child(1))),
            };
            for i in (0..depth).rev() {
                n = wrap(pat[i % m], n);
            }
            Some(Proto::branch(n, vec![t("kid").conds(1), Proto::branch(cats(vec![lit("<"), alt(lit("-"), N::Nl), lit(">")]), vec![])]))
        }),
        widths,
    }
}

/// Every stack of a few wrappers, of every kind there is.
pub fn sp_nest(depth: usize, kids: &'static [usize], widths: Vec<u16>) -> Space {
    Space {
        name: format!("nest{}/kids{:?}", depth, kids),
        describe: format!(
            "10 notations within every stack of {} wrappers of {} kinds (flat, options of choices, before and after texts and newlines, plain and styled indents, style, checks, the cases of a count, the two parts of a fold), between two texts, over {:?} children",
            depth, N_WRAP, kids
        ),
        src: Arc::new(move |ch| {
            let pat: Vec<usize> = (0..depth).map(|_| ch.pick(N_WRAP)).collect();
            let mut n = match ch.pick(10) {
                0 => lit("x"),
                1 => N::Nl,
                2 => child(0),
                3 => child(-1),
                4 => alt(lit(" "), N::Nl),
                5 => cats(vec![lit("x"), N::Nl, lit("y")]),
                6 => N::Left,
                7 => N::Right,
                8 => cats(vec![N::Left, alt(lit(" "), N::Nl), N::Right]),
                _ => cats(vec![alt(N::Eol, N::Empty), N::Nl]),
            };
            for i in pat.into_iter().rev() {
                n = wrapper(i, n);
            }
            let list = || {
                vec![
                    t("p"),
                    Proto::branch(cats(vec![lit("<"), alt(lit("-"), N::Nl), lit(">")]), vec![]).conds(1),
                    Proto::branch(cats(vec![lit("q"), N::Nl, sty(0, lit("r"))]), vec![]),
                ]
            };
            let k = kids[ch.pick(kids.len())];
            Some(Proto::branch(cats(vec![lit("("), n, lit(")")]), list().into_iter().take(k).collect()))
        }),
        widths,
    }
}

/// Documents of many levels: templates in a repeated pattern.
pub fn sp_tower(max: usize, depths: &'static [usize], widths: Vec<u16>) -> Space {
    Space {
        name: format!("tower{}x{:?}", max, depths),
        describe: format!(
            "documents of {:?} levels, whose templates repeat a pattern of up to {} of the {}, each with a leaf and the next level as its children, in either order (only 9 levels where both options of a choice contain a child)",
            depths, max, N_TEMPLATE
        ),
        src: Arc::new(move |ch| {
            let depth = depths[ch.pick(depths.len())];
            let m = 1 + ch.pick(max);
            let pat: Vec<(usize, bool)> = (0..m).map(|_| (ch.pick(N_TEMPLATE), ch.pick(2) == 0)).collect();
            // the reference layout works out both options of every choice
            let doubling = pat.iter().any(|p| [6, 7, 8, 12, 13].contains(&p.0));
            if doubling && depth > 9 {
                return None;
            }
            let mut p = leaf([0, 5][ch.pick(2)]);
            for i in (0..depth).rev() {
                let (tp, first) = pat[i % m];
                let l = leaf([1, 0, 3][i % 3]);
                p = Proto::branch(template(tp), if first { vec![p, l] } else { vec![l, p] });
            }
            Some(p)
        }),
        widths,
    }
}

/// Sizes beyond 16 bits: lines, children, columns of a text, columns of a line.
pub fn sp_huge(widths: Vec<u16>) -> Space {
    const SHAPES: [Big; 8] = [
        Big::Wide(1, 70_000),
        Big::Wide(2, 70_000),
        Big::Wide(3, 70_000),
        Big::Wide(0, 70_000),
        Big::Long(0, 40_000),
        Big::Long(1, 66_000),
        Big::Long(2, 65_536),
        Big::Long(7, 66_000),
    ];
    Space {
        name: "huge".into(),
        describe: "documents beyond 16 bits: 70000 children (flow wrapped, one per line, on one line, as an array), texts of 40000 to 66000 characters (as an array, flow wrapped, one per line, as a call)".into(),
        src: Arc::new(move |ch| Some(big(SHAPES[ch.pick(8)], 0, 8))),
        widths,
    }
}

/// Texts with characters of unusual width: full-width, combining, joining, invisible, control.
pub fn sp_odd(n: usize, shapes: usize, widths: Vec<u16>) -> Space {
    const ALPHABET: [char; 15] = [
        'a', ' ', '\u{4FE1}', '\u{301}', '\u{200D}', '\u{1F468}', '\u{FE0F}', '\u{2764}', '\u{1F1E8}', '\u{AD}', '\u{1112}', '\u{1161}',
        '\t', '\u{1F3FD}', '\u{3000}',
    ];
    Space {
        name: format!("odd<={}x{}", n, shapes),
        describe: format!(
            "{} shapes with choices around a text, literal or indentation string that is one of all strings of 1 to {} of the characters {:?}, and of 5 joined emoji",
            shapes, n, ALPHABET
        ),
        src: Arc::new(move |ch| {
            let k = ch.pick(n + 1);
            let s: String = if k == 0 {
                [
                    "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}",
                    "\u{1F44D}\u{1F3FD}\u{1F44D}",
                    "\u{1F1E8}\u{1F1ED}\u{1F1E8}\u{1F1ED}",
                    "\u{2764}\u{FE0F}x\u{2764}\u{FE0F}",
                    "\u{1112}\u{1161}\u{11AB}z\u{1112}\u{1161}\u{11AB}",
                ][ch.pick(5)]
                .into()
            } else {
                (0..k).map(|_| ALPHABET[ch.pick(ALPHABET.len())]).collect()
            };
            let s: S = Box::leak(s.into_boxed_str());
            let or_nl = |x: S| alt(lit(x), N::Nl);
            Some(match ch.pick(shapes) {
                0 => Proto::text(cats(vec![N::Text, or_nl(" "), lit("ab")]), s),
                1 => Proto::branch(cats(vec![lit(s), or_nl("-"), lit("b")]), vec![]),
                2 => Proto::text(ind(s, cats(vec![lit("x"), N::Nl, lit("y"), or_nl(" "), lit("z")])), s),
                3 => Proto::text(cat(alt(cats(vec![lit("x"), N::Text, lit("y")]), cats(vec![lit("s"), N::Nl, N::Text])), or_nl(";")), s),
                4 => Proto::branch(template(1), vec![leaf(0), Proto::text(N::Text, s), leaf(0)]),
                5 => Proto::text(cats(vec![N::Text, or_nl("-"), N::Text, alt(N::Text, N::Nl), N::Text]), s),
                _ => Proto::text(ind(s, cats(vec![N::Nl, N::Text, alt(cat(lit(s), N::Text), N::Nl), lit(s)])), s),
            })
        }),
        widths,
    }
}

/// All paths, or of a large document those in the beginning, the middle, the end, and around powers of two.
fn some_paths(root: &Node) -> Vec<Vec<usize>> {
    let all = all_paths(root);
    let n = all.len();
    if n <= 40 {
        return all;
    }
    let mut at: Vec<usize> = [0, 1, 2, 3, 17, 33, 65, 129, 257, 513, n / 2 - 1, n / 2, n - 3, n - 2, n - 1]
        .iter()
        .copied()
        .filter(|i| *i < n)
        .collect();
    at.sort();
    at.dedup();
    at.into_iter().map(|i| all[i].clone()).collect()
}

/// Children that are empty, or end a line, between choices.
const EDGE: Gram = Gram {
    leaves: &[crate::gen::g::c0, crate::gen::g::c1, crate::gen::g::la, crate::gen::g::nl],
    unary: &[],
    right_cat: true,
    ..CORE
};
pub fn sp_edge(max: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("edge<={}", max),
        describe: format!(
            "a branch node with every notation of at most {} operators over two children, a text, newlines, and choices; each child is one of: a comment that ends the line, an empty text, a text x, nothing",
            max
        ),
        src: Arc::new(move |ch| {
            let n = EDGE.gen_upto(ch, max)?;
            if !mentions_child(&n) {
                return None;
            }
            let kids = (0..2).map(|_| leaf([3, 6, 0, 9][ch.pick(4)])).collect();
            Some(Proto::branch(n, kids))
        }),
        widths,
    }
}

// ---- helpers --------------------------------------------------------------------------------

pub fn fails(e: &E) -> Vec<ErrK> {
    let mut v = vec![];
    collect_fails(e, &mut v);
    v
}

fn note(laid: &Laid, ctx: &Ctx, st: &mut Stats) {
    st.add("transitions", laid.steps + ctx.calls.get());
    st.add("first options taken", laid.took.0);
    st.add("second options taken", laid.took.1);
    st.outcome(hash_of(&laid.lines));
}

/// Whole-document printing against the model.
fn check_whole(case: &Case, st: &mut Stats, styles: bool, root_style: Option<Sty>) -> Result<(), String> {
    let ctx = Ctx::new();
    let e = elaborate(case.root, root_style);
    let laid = lay_out(case.root, e.clone(), case.width as u64);
    let fails = fails(&e);
    let doc = refs(&ctx, case.root);
    st.add("runs", 1);
    let out = print_all(doc, case.width, &[], Target::Start, root_style.as_ref());
    compare_with_errors(&out, &laid, &fails, styles)?;
    if root_style.is_none() {
        st.add("runs", 1);
        let s = ppp::pretty_print_to_string(doc, case.width);
        match (&s, &laid.err) {
            (Ok(text), None) => {
                if *text != laid.text() {
                    return Err(format!(
                        "pretty_print_to_string gave {:?}, expected {:?}",
                        text,
                        laid.text()
                    ));
                }
            }
            (Ok(text), Some(k)) => {
                return Err(format!(
                    "pretty_print_to_string succeeded with {:?}, but the layout has error {:?}",
                    text, k
                ))
            }
            (Err(e), err) => {
                if !err.iter().chain(fails.iter()).any(|k| same_err(e, *k)) {
                    return Err(format!(
                        "pretty_print_to_string gave error {:?}; errors that can occur: {:?} {:?}",
                        e, err, fails
                    ));
                }
            }
        }
    }
    note(&laid, &ctx, st);
    if laid.err.is_some() {
        st.add("layouts ending in an error", 1);
    }
    Ok(())
}

/// An output printed from the document start, where the layout may contain an error.
pub fn compare_with_errors(
    out: &Result<Out, PE>,
    laid: &Laid,
    fails: &[ErrK],
    styles: bool,
) -> Result<(), String> {
    let allowed = |e: &PE| laid.err.iter().chain(fails.iter()).any(|k| same_err(e, *k));
    match out {
        Err(e) => {
            if !allowed(e) {
                return Err(format!(
                    "printing gave error {:?}; errors that can occur: {:?} {:?}",
                    e, laid.err, fails
                ));
            }
        }
        Ok(o) => {
            if o.above_err.is_some() || !o.above.is_empty() {
                return Err("lines above the start of the document".to_string());
            }
            match (&o.below_err, &laid.err) {
                (None, None) => {
                    cmp_all(o, laid, styles)?;
                }
                (None, Some(k)) => {
                    return Err(format!("printed everything, but the layout has error {:?}", k))
                }
                (Some(e), _) => {
                    if !allowed(e) {
                        return Err(format!(
                            "printing gave error {:?}; errors that can occur: {:?} {:?}",
                            e, laid.err, fails
                        ));
                    }
                    // what was delivered must be right
                    let lines = all_lines(o);
                    for (i, l) in lines.iter().enumerate() {
                        match laid.lines.get(i) {
                            Some(m) => cmp_line("(before the error)", i, l, m, styles)?,
                            None => return Err("more lines than the layout has".to_string()),
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Every path to a displayed node, plus the root.
fn targets_for(node: &Node) -> Vec<Target> {
    let mut v = vec![Target::Start, Target::End, Target::Mark, Target::Text(0)];
    match node.text {
        Some(t) => {
            let n = t.chars().count();
            if n < 3000 {
                v.extend((1..=n + 1).map(Target::Text));
            } else {
                let some = [1, 2, 127, 128, 255, 256, 257, n / 2, 32767, 32768, 65534, 65535, 65536, 65537, n - 1, n, n + 1];
                v.extend(some.iter().map(|i| Target::Text(*i)));
            }
            for i in [1 << 8, 1 << 16, 1 << 32, (1 << 32) + 1, usize::MAX] {
                if i > n + 1 {
                    v.push(Target::Text(i));
                }
            }
        }
        None => v.push(Target::Text(1)),
    }
    v
}

/// One path and target.
fn check_focus_at(
    case: &Case,
    laid: &Laid,
    d: DRef<'_, true>,
    path: &[usize],
    target: Target,
    st: &mut Stats,
    doc: bool,
    pos: bool,
) -> Result<(), String> {
    let expect = laid.expect(path, target);
    let fail = |m: String| format!("path {:?}, target {:?}: {}", path, target, m);
    st.add("runs", 1);
    let out = print_all(d, case.width, path, target, None);
    match out {
        Ok(o) => {
            let (l, c) = match cmp_all(&o, &laid, true) {
                Ok(x) => x,
                Err(m) => {
                    if doc {
                        return Err(fail(m));
                    }
                    return Ok(());
                }
            };
            if pos {
                match expect {
                    Expect::At(at) => {
                        if (at.line, at.col) != (l, c) {
                            return Err(fail(format!(
                                "focus at line {} char {}, expected line {} char {}",
                                l, c, at.line, at.col
                            )));
                        }
                        st.add("focus positions", 1);
                    }
                    Expect::Unspecified => (),
                    x => {
                        return Err(fail(format!(
                            "succeeded with focus at line {} char {}, expected {:?}",
                            l, c, x
                        )))
                    }
                }
            }
        }
        Err(e) => {
            let ok = match (&e, expect) {
                (_, Expect::Unspecified) => true,
                (PE::InvalidPath(i), Expect::InvalidPath(j)) => *i == j,
                (PE::MissingFocusMark, Expect::MissingMark) => true,
                (PE::MissingText, Expect::MissingText) => true,
                _ => false,
            };
            // An error where a position was expected breaks both; a wrong kind of error
            // only the position property.
            if !ok && (pos || matches!(expect, Expect::At(_))) {
                return Err(fail(format!("error {:?}, expected {:?}", e, expect)));
            }
            st.add("focus errors", 1);
        }
    }
    Ok(())
}

/// All paths and targets. `doc`: the lines must be the document's. `pos`: the focus must be exact.
fn check_focus(case: &Case, st: &mut Stats, doc: bool, pos: bool) -> Result<(), String> {
    let e = elaborate(case.root, None);
    let laid = lay_out(case.root, e.clone(), case.width as u64);
    if laid.err.is_some() || !fails(&e).is_empty() {
        st.add("layouts with errors (not focused)", 1);
        return Ok(());
    }
    let ctx = Ctx::new();
    let d = refs(&ctx, case.root);
    for path in some_paths(case.root) {
        let node = node_at(case.root, &path).unwrap();
        for target in targets_for(node) {
            check_focus_at(case, &laid, d, &path, target, st, doc, pos)?;
        }
    }
    note(&laid, &ctx, st);
    Ok(())
}

/// As `check_focus`, but for a single path and target chosen by the explorer.
fn check_focus_picked(case: &Case, ch: &mut Chooser, st: &mut Stats, few: bool) -> Result<(), String> {
    let mut paths = some_paths(case.root);
    if few && paths.len() > 3 {
        paths = vec![paths[1].clone(), paths[paths.len() / 2].clone(), paths[paths.len() - 1].clone()];
    }
    let path = &paths[ch.pick(paths.len())];
    let mut targets = targets_for(node_at(case.root, path).unwrap());
    if few && targets.len() > 10 {
        targets.retain(|t| !matches!(t, Target::Text(i) if *i < 32768 || *i > 65537));
    }
    let target = targets[ch.pick(targets.len())];
    let e = elaborate(case.root, None);
    let laid = lay_out(case.root, e, case.width as u64);
    assert!(laid.err.is_none(), "harness: huge documents are fine");
    let ctx = Ctx::new();
    check_focus_at(case, &laid, refs(&ctx, case.root), path, target, st, true, true)?;
    note(&laid, &ctx, st);
    Ok(())
}

// ---- C01 / C02 ------------------------------------------------------------------------------

fn c01_check(case: &Case, _ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    check_whole(case, st, false, None)
}

/// Lends a document to a thread, for as long as the lender waits for it.
struct Lent(*const Node);
unsafe impl Send for Lent {}

/// Print on an ordinary (1 MB) stack, and compare with the layout.
fn on_ordinary_stack(root: &Node, width: u16, path: &[usize], target: Target, st: &mut Stats) -> Verdict {
    let e = elaborate(root, None);
    let laid = lay_out(root, e, width as u64);
    assert!(laid.err.is_none(), "harness: ordinary-stack documents have no errors");
    let lines: Vec<Vec<(&str, Sty)>> = laid.lines.iter().map(|l| l.iter().map(|s| (s.s, s.sty)).filter(|s| !s.0.is_empty()).collect()).collect();
    let want = hash_of(&lines);
    st.add("states", 1);
    st.add("runs", 1);
    st.add("transitions", lines.len() as u64);
    st.outcome(want);

    let lent = Lent(root);
    let path = path.to_vec();
    let got = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let lent = lent;
            // Safe because the lender joins this thread while it holds the document.
            let root: &Node = unsafe { &*lent.0 };
            let ctx = Ctx::new();
            guarded(|| match print_all(refs(&ctx, root), width, &path, target, None) {
                Ok(o) => {
                    if let Some(e) = o.above_err.as_ref().or(o.below_err.as_ref()) {
                        return Err(format!("error {:?}", e));
                    }
                    let lines: Vec<Vec<(&str, Sty)>> = all_lines(&o)
                        .iter()
                        .map(|l| l.iter().map(|s| (s.s, s.sty)).filter(|s| !s.0.is_empty()).collect())
                        .collect();
                    Ok(hash_of(&lines))
                }
                Err(e) => Err(format!("error {:?}", e)),
            })
        })
        .expect("harness: thread")
        .join();
    match got {
        Ok(Ok(Ok(h))) if h == want => Verdict::Ok,
        Ok(Ok(Ok(_))) => Verdict::Bad("other lines than expected".into()),
        Ok(Ok(Err(m))) => Verdict::Bad(m),
        Ok(Err(m)) => Verdict::Bad(format!("panic: {}", m)),
        Err(_) => Verdict::Bad("the printing thread failed".into()),
    }
}

/// The lines of large documents, printed on an ordinary (1 MB) stack.
fn u_ordinary_stack() -> Universe {
    const SHAPES: [Big; 9] = [
        Big::Wide(0, 70_000),
        Big::Wide(1, 70_000),
        Big::Wide(2, 70_000),
        Big::Wide(3, 70_000),
        Big::Wide(11, 70_000),
        Big::Wide(7, 70_000),
        Big::Deep(0, 1000),
        Big::Deep(1, 1000),
        Big::Deep(3, 1000),
    ];
    Universe {
        name: "ordinary-stack".into(),
        describe: "70000 children in 6 templates, and 3 kinds of chains 1000 levels deep, printed by a thread with a stack of 1 MB, from the start and from the end, at 2 widths".into(),
        body: Arc::new(|ch, st| {
            let b = SHAPES[ch.pick(SHAPES.len())];
            let width = [30u16, 1000][ch.pick(2)];
            let target = [Target::Start, Target::End][ch.pick(2)];
            let root = big(b, 0, 1).build(false).expect("harness: big");
            on_ordinary_stack(&root, width, &[], target, st)
        }),
    }
}

/// Folds that display only a few of very many children.
fn u_skips(n: usize) -> Universe {
    fn joins(k: usize) -> N {
        let nls = || cats(vec![N::Left, N::Nl, N::Right]);
        let skip = || chk(0, Pos::Right, N::Left, nls());
        match k {
            0 => skip(),
            1 => chk(0, Pos::Left, N::Left, nls()),
            2 => N::Left,
            3 => N::Right,
            4 => ind(" ", skip()),
            5 => sty(0, skip()),
            6 => flat(skip()),
            7 => cnt(N::Empty, N::Empty, skip()),
            8 => chk(0, Pos::Right, N::Left, alt(cats(vec![N::Left, lit(" "), N::Right]), nls())),
            9 => flat(chk(0, Pos::Right, alt(N::Left, N::Nl), cat(N::Left, N::Right))),
            10 => chk(0, Pos::Child(0), N::Right, skip()),
            11 => inds("|", 1, sty(0, flat(skip()))),
            12 => chk(0, Pos::Right, cat(N::Left, N::Empty), nls()),
            _ => unreachable!(),
        }
    }
    universe(
        "skips".into(),
        format!("13 kinds of folds over {} children that skip most of them (all but the first, the last, a middle one, one in {}, half of them), between a prefix and a suffix, printed by a thread with a stack of 1 MB, from the start, the end and a displayed child, at 2 widths", n, n / 10),
        move |ch, st| {
            let k = ch.pick(13);
            let keep = ch.pick(5);
            let width = [30u16, 1000][ch.pick(2)];
            let at = ch.pick(3);
            let shown = |i: usize| match keep {
                0 => i == 0,
                1 => i == n - 1,
                2 => i == n / 2,
                3 => i % (n / 10) == 0,
                _ => i % 2 == 0,
            };
            // Quadratic output: as many levels of indentation as there are children. (And, of kind 8,
            // the model of what remains of both options is exponential.)
            if keep == 4 && (k == 4 || k == 8 || k == 11) {
                return Verdict::Skip;
            }
            let kids = (0..n).map(|i| t("x").conds(if shown(i) { 0 } else { 1 })).collect();
            let root = Proto::branch(cats(vec![lit("<"), fold(child(0), joins(k)), lit(">")]), kids);
            let root = root.build(false).expect("harness: skips");
            let (path, target) = match at {
                0 => (vec![], Target::Start),
                1 => (vec![], Target::End),
                _ => {
                    let e = elaborate(&root, None);
                    let laid = lay_out(&root, e, width as u64);
                    let mid: Vec<usize> = laid.evs.iter().filter_map(|e| match e { Ev::Start { index, id, .. } if *id != root.id => Some(*index), _ => None }).collect();
                    match mid.get(mid.len() / 2) {
                        None => return Verdict::Skip,
                        Some(i) => (vec![*i], Target::Text(1)),
                    }
                }
            };
            on_ordinary_stack(&root, width, &path, target, st)
        },
    )
}

/// Very deep documents.
fn u_abyss(n: usize) -> Universe {
    const KINDS: usize = 12;
    fn note(k: usize) -> N {
        match k {
            0 => child(0),
            1 => flat(child(0)),
            2 => sty(0, child(0)),
            3 => ind(" ", child(0)),
            4 => inds("|", 1, child(0)),
            5 => cats(vec![lit("("), ind(" ", child(0)), lit(")")]),
            6 => ind(" ", flat(sty(0, alt(child(0), N::Nl)))),
            7 => cats(vec![lit("a"), N::Nl, child(0)]),
            8 => cats(vec![child(0), N::Nl, lit("b")]),
            9 => cnt(N::Empty, chk(0, Pos::Child(0), child(0), ind(" ", child(-1))), N::Empty),
            10 => fold(ind("-", child(0)), cat(N::Left, N::Right)),
            11 => cats(vec![lit("a"), N::Nl, child(0), N::Nl, lit("b")]),
            _ => unreachable!(),
        }
    }
    universe(
        "abyss".into(),
        format!("{} kinds of chains {} levels deep, ending in two kinds of leaves, printed by a thread with a stack of 1 MB, from the start and from the end of the document, and from the leaf, at 2 widths", KINDS, n),
        move |ch, st| {
            let k = ch.pick(KINDS);
            let mut p = leaf([0, 5][ch.pick(2)]);
            let width = [30u16, 1000][ch.pick(2)];
            let at = ch.pick(3);
            for _ in 0..n {
                p = Proto::branch(note(k), vec![p]);
            }
            let root = p.build(false).expect("harness: abyss");
            let (path, target) = match at {
                0 => (vec![], Target::Start),
                1 => (vec![], Target::End),
                _ => (vec![0; n], Target::End),
            };
            on_ordinary_stack(&root, width, &path, target, st)
        },
    )
}

fn c01(t: Tier) -> Vec<Universe> {
    let mut v = vec![];
    let q = t == Tier::Quick;
    v.push(over(sp_gram("core", CORE, if q { 7 } else { 8 }, w(6)), c01_check));
    v.push(over(sp_gram("core-lean", CORE_LEAN, if q { 8 } else { 9 }, w(7)), c01_check));
    v.push(over(sp_gram("core-choice", CORE_CHOICE, if q { 10 } else { 11 }, w(5)), c01_check));
    v.push(over(sp_doc2(3, N_LEAF, w(if q { 12 } else { 24 })), c01_check));
    v.push(over(sp_pair(if q { 8 } else { 10 }, w(if q { 4 } else { 6 })), c01_check));
    v.push(over(sp_edge(if q { 7 } else { 9 }, if q { vec![0, 1, 3] } else { w(4) }), c01_check));
    v.push(over(sp_texty("texty", TEXTY, if q { 7 } else { 8 }, if q { vec![1, 3, 4] } else { w(6) }), c01_check));
    v.push(over(sp_pair_text(if q { 9 } else { 10 }, if q { vec![2, 3] } else { w(5) }), c01_check));
    let ws = || if q { vec![49, 51] } else { vec![48, 49, 50, 51, 53, 300] };
    v.push(over(sp_surround("text", if q { 7 } else { 8 }, gen_text_node, ws()), c01_check));
    v.push(over(sp_surround("branch", if q { 7 } else { 8 }, gen_branch_node, ws()), c01_check));
    v.push(over(sp_trio(5, 5, if q { 11 } else { 12 }, if q { vec![0, 2, 3] } else { w(5) }), c01_check));
    v.push(over(sp_odd(if q { 2 } else { 3 }, 7, w(10)), c01_check));
    v.push(over(sp_nest(if q { 4 } else { 5 }, &[3], if q { vec![0, 4, 9] } else { vec![0, 5] }), c01_check));
    v.push(over(sp_every_char(3, if q { vec![3, 4] } else { vec![2, 3, 4, 5] }), c01_check));
    v.push(over(sp_one_odd(if q { &[9, 33, 70] } else { &[9, 20, 33, 70, 140] }, if q { vec![0, 30, 66, 67, 140] } else { vec![0, 5, 17, 30, 66, 67, 80, 140, 300] }), c01_check));
    v.push(u_ordinary_stack());
    v.push(u_skips(if q { 40_000 } else { 100_000 }));
    v.push(u_abyss(if q { 60_000 } else { 100_000 }));
    v.push(over(sp_chain(if q { 3 } else { 4 }, &[4, 13, 70, 300], vec![0, 6, 30, 200]), c01_check));
    v.push(over(sp_tower(3, &[4, 9, 25], vec![0, 6, 30, 200]), c01_check));
    v.push(over(sp_huge(if q { vec![80] } else { vec![1, 80, 65535] }), c01_check));
    v.push(over(
        sp_big(t, &[(0, 1), (4, 8), (5, 3)], if q { vec![1, 20, 80, 1000] } else { vec![0, 1, 7, 20, 80, 300, 1000, 5000] }),
        c01_check,
    ));
    v.push(over(
        sp_doc3(&[0, 1, 4, 7, 8], if q { &[0, 3, 4] } else { &[0, 2, 3, 4, 8] }, 2, 2, w(if q { 14 } else { 22 })),
        c01_check,
    ));
    v
}

fn c02(t: Tier) -> Vec<Universe> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(over(sp_index(5, if q { 3 } else { 4 }, vec![8]), c01_check));
    v.push(over(sp_indices(if q { 24 } else { 60 }), c01_check));
    v.push(over(sp_counts(if q { 70 } else { 300 }), c01_check));
    v.push(over(
        sp_big(t, &[(1, 2), (7, 4)], if q { vec![0, 30, 400] } else { vec![0, 3, 30, 100, 400, 65535] }),
        c01_check,
    ));
    v.push(over(
        sp_rooted("branch", BRANCH, if q { 6 } else { 7 }, &[0, 1, 2, 3], if q { 2 } else { 3 }, vec![1, 4]),
        c01_check,
    ));
    v.push(over(sp_joins("join", JOIN, if q { 7 } else { 8 }, 4, vec![3, 7]), c01_check));
    v.push(over(sp_fold_sizes(if q { 5 } else { 6 }, if q { 33 } else { 70 }, vec![4, 20]), c01_check));
    v.push(over(sp_one_odd(if q { &[9, 33, 70] } else { &[9, 20, 33, 70, 140] }, vec![30, 150]), c01_check));
    v.push(over(sp_fold_checks(if q { 5 } else { 9 }, if q { 33 } else { 70 }, vec![9]), c01_check));
    v.push(over(sp_nest(4, if q { &[3] } else { &[0, 1, 2, 3] }, if q { vec![0, 5] } else { vec![0, 2, 3, 5, 7, 9] }), c01_check));
    v.push(over(sp_joins("join", JOIN, if q { 6 } else { 7 }, 13, if q { vec![3, 7] } else { vec![0, 3, 6, 9, 14] }), c01_check));
    v.push(over(sp_doc2(if q { 3 } else { 4 }, N_LEAF, if q { w(14) } else { vec![0, 2, 4, 6, 8, 10, 14, 20] }), c01_check));
    v.push(over(
        sp_doc3(
            &[0, 1, 5, 6, 8, 11],
            &[1, 3, 5],
            2,
            2,
            if q { w(14) } else { w(30) },
        ),
        c01_check,
    ));
    v
}

// ---- C03 / C04 ------------------------------------------------------------------------------

fn c03_check(case: &Case, _ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    check_focus(case, st, true, false)
}
fn c04_check(case: &Case, _ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    check_focus(case, st, false, true)
}

fn focus_spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        sp_gram("core", CORE, if q { 6 } else { 7 }, w(5)),
        sp_gram("core-lean", CORE_LEAN, if q { 7 } else { 8 }, w(5)),
        sp_rooted("branch", BRANCH, if q { 5 } else { 6 }, &[1, 2, 3], 4, vec![2, 5]),
        sp_joins("join", JOIN, 6, if q { 4 } else { 13 }, if q { vec![4] } else { vec![3, 7] }),
        sp_fold_sizes(if q { 4 } else { 5 }, if q { 12 } else { 33 }, vec![4, 20]),
        sp_nest(if q { 3 } else { 4 }, &[3], if q { vec![0, 5] } else { vec![0, 4, 9] }),
        sp_one_odd(if q { &[18] } else { &[9, 18, 33] }, if q { vec![9, 37] } else { vec![0, 9, 37, 80] }),
        sp_texty("texty", TEXTY, if q { 7 } else { 8 }, if q { vec![1, 3, 4] } else { w(6) }),
        sp_texty("texty-lean", TEXTY_LEAN, if q { 9 } else { 10 }, vec![2, 3, 5]),
        sp_pair_text(if q { 9 } else { 10 }, if q { vec![2, 3] } else { w(5) }),
        sp_surround("text", if q { 6 } else { 7 }, gen_text_node, if q { vec![49, 51] } else { vec![48, 49, 50, 51, 53, 300] }),
        sp_surround("branch", if q { 5 } else { 6 }, gen_branch_node, if q { vec![49, 51] } else { vec![48, 49, 50, 51, 53, 300] }),
        sp_trio(5, 5, if q { 10 } else { 12 }, vec![0, 2, 3]),
        sp_doc2(if q { 2 } else { 3 }, N_LEAF, w(if q { 14 } else { 10 })),
        sp_pair(if q { 8 } else { 9 }, w(if q { 4 } else { 5 })),
        sp_doc3(&[0, 1, 4, 7, 8], &[0, 3, 4], 2, 2, if q { vec![0, 2, 5, 9, 12] } else { w(20) }),
        sp_doc3(&[2, 3, 9, 12], &[6, 7, 10, 11], 2, 2, if q { vec![0, 4, 8] } else { w(12) }),
        sp_edge(if q { 6 } else { 8 }, if q { vec![0, 1, 3] } else { w(4) }),
        sp_odd(2, 7, if q { vec![2, 4, 6, 8] } else { w(12) }),
        sp_chain(3, if q { &[4, 13, 70] } else { &[4, 9, 13, 30, 70, 200] }, vec![0, 6, 30, 200]),
        sp_tower(if q { 1 } else { 2 }, &[4, 9, 25], vec![0, 6, 30, 200]),
        sp_big(t, if q { &[(0, 7)] } else { &[(0, 1), (4, 8), (5, 3), (7, 10)] }, if q { vec![1, 20, 80] } else { vec![0, 7, 20, 80, 1000] }),
    ]
}

/// Texts whose width as a whole is not the sum of the widths of their characters.
fn u_clusters() -> Universe {
    const TEXTS: [S; 8] = [
        "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}", // family, joined
        "a\u{301}e\u{301}\u{301}b",                       // combining accents
        "\u{2764}\u{FE0F}x\u{2764}\u{FE0F}",               // heart with variation selector
        "\u{1F1E8}\u{1F1ED}\u{1F1E8}",                     // flags
        "x\u{200B}\u{200D}\u{AD}y",                        // invisible characters
        "\u{1112}\u{1161}\u{11AB}z",                       // Hangul jamo
        "\u{1F44D}\u{1F3FD}\u{1F44D}",                     // skin tone modifier
        "plain \u{4FE1}",
    ];
    fn shape(k: usize, a: S, b: S) -> Proto {
        let (a, b) = (Proto::text(N::Text, a), Proto::text(N::Text, b));
        match k {
            0 => Proto::branch(cat(child(0), alt(lit(" end"), cat(N::Nl, lit("end")))), vec![a]),
            1 => Proto::branch(cats(vec![child(0), alt(lit(" "), N::Nl), child(1)]), vec![a, b]),
            2 => Proto::branch(template(0), vec![a, b]),
            3 => Proto::branch(template(1), vec![a.clone(), b, a]),
            _ => Proto::branch(template(7), vec![a, b]),
        }
    }
    fn page(root: &Node, width: u16, path: &[usize], target: Target) -> Result<Vec<(String, u16)>, String> {
        let ctx = Ctx::new();
        let e = |e: PE| format!("error {:?}", e);
        let (u, f, d) = ppp::pretty_print(refs(&ctx, root), width, path, target.real(), None).map_err(e)?;
        let mut v = vec![];
        for l in u {
            let l = l.map_err(e)?;
            v.insert(0, (l.to_string(), l.width()));
        }
        v.push((f.to_string(), f.width()));
        for l in d {
            let l = l.map_err(e)?;
            v.push((l.to_string(), l.width()));
        }
        Ok(v)
    }
    Universe {
        name: "clusters".into(),
        describe: format!(
            "5 shapes of documents over two of the {} texts {:?}, at widths 0..24: printed from the start against every other focus (start, end, and every character of every text)",
            TEXTS.len(), TEXTS
        ),
        body: std::sync::Arc::new(move |ch, st| {
            let p = shape(ch.pick(5), TEXTS[ch.pick(8)], TEXTS[ch.pick(8)]);
            let width = ch.pick(25) as u16;
            let root = match p.build(false) {
                Some(r) => r,
                None => return Verdict::Skip,
            };
            let r = guarded(|| -> Result<(), String> {
                let want = page(&root, width, &[], Target::Start)?;
                st.add("states", 1);
                st.outcome(hash_of(&want));
                for path in all_paths(&root) {
                    let mut targets = vec![Target::Start, Target::End];
                    if let Some(t) = node_at(&root, &path).unwrap().text {
                        targets.extend((0..=t.chars().count() + 1).map(Target::Text));
                    }
                    for t in targets {
                        st.add("runs", 1);
                        st.add("transitions", want.len() as u64);
                        let got = page(&root, width, &path, t)?;
                        if got != want {
                            return Err(format!(
                                "focused at {:?} {:?} (line, width): {:?}\nfrom the start: {:?}",
                                path, t, got, want
                            ));
                        }
                    }
                }
                Ok(())
            });
            match r {
                Err(m) => Verdict::Bad(format!("panic: {}\nwidth {}\n{}", m, width, p.show())),
                Ok(Err(m)) => Verdict::Bad(format!("{}\nwidth {}\n{}", m, width, p.show())),
                Ok(Ok(())) => Verdict::Ok,
            }
        }),
    }
}

fn c03(t: Tier) -> Vec<Universe> {
    let mut v: Vec<Universe> = focus_spaces(t).into_iter().map(|s| over(s, c03_check)).collect();
    v.push(u_clusters());
    v
}
fn c04(t: Tier) -> Vec<Universe> {
    let mut v: Vec<Universe> = focus_spaces(t).into_iter().map(|s| over(s, c04_check)).collect();
    v.push(match t {
        Tier::Quick => over(sp_huge(vec![80]), |c, ch, st| check_focus_picked(c, ch, st, true)),
        Tier::Thorough => over(sp_huge(vec![1, 80, 65535]), |c, ch, st| check_focus_picked(c, ch, st, false)),
    });
    v
}


// ---- C05: pull histories ----------------------------------------------------------------------

/// Model line at `i`, if there is one.
fn line_at<'a, 'b>(laid: &'b Laid<'a>, i: isize) -> Option<&'b LineM<'a>> {
    if i < 0 {
        None
    } else {
        laid.lines.get(i as usize)
    }
}

fn c05_check(case: &Case, ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    c05_histories(case, ch, st, 5, 2)
}
fn c05_check_single(case: &Case, ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    c05_histories(case, ch, st, 9, 1)
}

fn c05_histories(case: &Case, ch: &mut Chooser, st: &mut Stats, len: usize, printings: usize) -> Result<(), String> {
    let e = elaborate(case.root, None);
    let laid = lay_out(case.root, e.clone(), case.width as u64);
    if laid.err.is_some() || !fails(&e).is_empty() {
        return Ok(());
    }
    // choose the focus of each printing
    let mut foci = vec![];
    for p in all_paths(case.root) {
        for t in [Target::Start, Target::End] {
            if let Expect::At(at) = laid.expect(&p, t) {
                foci.push((p.clone(), t, at.line));
            }
        }
    }
    let ctx = Ctx::new();
    let d = refs(&ctx, case.root);
    let mut its: Vec<It> = vec![];
    let mut pos: Vec<isize> = vec![];
    let mut chosen = vec![];
    for i in 0..printings {
        // the second printing: from either end, or the same focus
        let k = if i == 0 { ch.pick(foci.len()) } else { [0, foci.len() - 1][ch.pick(2)] };
        let (p, t, l) = &foci[k];
        st.add("runs", 1);
        let (u, f, dn) = ppp::pretty_print(d, case.width, p, t.real(), None)
            .map_err(|e| format!("path {:?} {:?}: error {:?}", p, t, e))?;
        let f: OLine = f.left_segments.iter().chain(f.right_segments.iter()).map(seg).collect();
        cmp_line("(focused)", *l, &f, &laid.lines[*l], true)?;
        its.push(Box::new(u));
        its.push(Box::new(dn));
        pos.push(*l as isize - 1);
        pos.push(*l as isize + 1);
        chosen.push((p.clone(), *t));
    }
    let mut history: Vec<usize> = vec![];
    let mut extra = vec![0; its.len()];
    for _ in 0..len {
        // an iterator that has ended twice is not pulled again here
        let live: Vec<usize> = (0..its.len()).filter(|k| extra[*k] < 2).collect();
        if live.is_empty() {
            break;
        }
        let c = ch.pick(live.len() + 1);
        if c == live.len() {
            break; // stop early
        }
        let k = live[c];
        history.push(k);
        st.add("transitions", 1);
        step(k, &mut its, &mut pos, &mut extra, &history, &laid, &chosen)?;
    }
    // With two printings: drop the first, and drain the second.
    if printings == 2 {
        its[0] = Box::new(std::iter::empty());
        its[1] = Box::new(std::iter::empty());
        for k in 2..4 {
            while extra[k] < 2 {
                history.push(k);
                step(k, &mut its, &mut pos, &mut extra, &history, &laid, &chosen)?;
            }
        }
    }
    st.outcome(hash_of(&(&laid.lines, &history)));
    st.add("transitions", laid.steps + ctx.calls.get());
    Ok(())
}

type It<'d> = Box<dyn Iterator<Item = Result<ppp::Line<'d, DRef<'d, true>>, PE>> + 'd>;

fn step<'d>(
    k: usize,
    its: &mut Vec<It<'d>>,
    pos: &mut Vec<isize>,
    extra: &mut Vec<i32>,
    history: &Vec<usize>,
    laid: &Laid,
    chosen: &Vec<(Vec<usize>, Target)>,
) -> Result<(), String> {
    let name = |h: &Vec<usize>| {
        h.iter()
            .map(|k| format!("{}{}", if k % 2 == 0 { "up" } else { "down" }, k / 2 + 1))
            .collect::<Vec<_>>()
            .join(" ")
    };
    let got = its[k].next();
    let want = line_at(laid, pos[k]);
    let fail = |m: String| format!("focuses {:?}, pulls {}: {}", chosen, name(history), m);
    match (got, want) {
        (None, None) => extra[k] += 1,
        (Some(Ok(l)), Some(m)) => {
            cmp_line("(pulled)", pos[k] as usize, &oline(&l), m, true).map_err(fail)?;
            pos[k] += if k % 2 == 0 { -1 } else { 1 };
        }
        (Some(Ok(l)), None) => {
            return Err(fail(format!("line {} after the end", show_o(&oline(&l)))))
        }
        (Some(Err(e)), _) => return Err(fail(format!("error {:?}", e))),
        (None, Some(m)) => return Err(fail(format!("ended before line {}", show_m(m)))),
    }
    Ok(())
}

/// Large documents: drain both iterators completely, in several orders, and beyond their ends.
fn c05_drain(case: &Case, ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    let e = elaborate(case.root, None);
    let laid = lay_out(case.root, e.clone(), case.width as u64);
    if laid.err.is_some() || !fails(&e).is_empty() {
        return Ok(());
    }
    let paths = some_paths(case.root);
    let ctx = Ctx::new();
    let d = refs(&ctx, case.root);
    let order = ch.pick(4);
    for path in &paths {
        let t = [Target::Start, Target::End][(order + path.len()) % 2];
        let line = match laid.expect(path, t) {
            Expect::At(at) => at.line,
            _ => continue,
        };
        st.add("runs", 1);
        let (u, f, dn) = ppp::pretty_print(d, case.width, path, t.real(), None)
            .map_err(|e| format!("path {:?} {:?}: error {:?}", path, t, e))?;
        let f: OLine = f.left_segments.iter().chain(f.right_segments.iter()).map(seg).collect();
        cmp_line("(focused)", line, &f, &laid.lines[line], true)?;
        let mut its: Vec<It> = vec![Box::new(u), Box::new(dn)];
        let mut pos = vec![line as isize - 1, line as isize + 1];
        let mut extra = vec![0; 2];
        let mut n = 0;
        let none = vec![];
        let chosen = vec![(path.clone(), t)];
        while extra[0] < 3 || extra[1] < 3 {
            let k = match order {
                0 => (extra[0] >= 3) as usize,
                1 => (extra[1] < 3) as usize,
                2 => n % 2,
                _ => (n % 7 >= 3) as usize,
            };
            n += 1;
            let k = if extra[k] >= 3 { 1 - k } else { k };
            st.add("transitions", 1);
            step(k, &mut its, &mut pos, &mut extra, &none, &laid, &chosen)
                .map_err(|m| format!("order {}, pull {}: {}", order, n, m))?;
        }
    }
    st.outcome(hash_of(&(&laid.lines, order)));
    st.add("transitions", ctx.calls.get());
    Ok(())
}

/// Iterators over documents whose layout contains an error come to an end, whatever is pulled.
fn c05_errors(case: &Case, ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    let e = elaborate(case.root, None);
    let laid = lay_out(case.root, e.clone(), case.width as u64);
    let fails = fails(&e);
    if laid.err.is_none() && fails.is_empty() {
        return Ok(());
    }
    let ctx = Ctx::new();
    let d = refs(&ctx, case.root);
    let paths = all_paths(case.root);
    let path = &paths[ch.pick(paths.len())];
    let t = [Target::Start, Target::End, Target::Mark, Target::Text(1)][ch.pick(4)];
    st.add("runs", 1);
    let (u, _, dn) = match ppp::pretty_print(d, case.width, path, t.real(), None) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let mut its: Vec<It> = vec![Box::new(u), Box::new(dn)];
    for k in [0, 1] {
        let cap = 2 * laid.lines.len() + 1000;
        let mut n = 0;
        while let Some(_) = its[k].next() {
            n += 1;
            if n > cap {
                return Err(format!(
                    "path {:?} {:?}: the {} lines do not end (the layout has an error)",
                    path, t, ["upward", "downward"][k]
                ));
            }
        }
        st.add("transitions", n as u64);
        st.add("iterators of failing layouts drained", 1);
    }
    st.outcome(hash_of(&(&laid.lines, path)));
    Ok(())
}

fn c05(t: Tier) -> Vec<Universe> {
    let q = t == Tier::Quick;
    vec![
        over(
            sp_big(t, if q { &[(0, 5)] } else { &[(0, 5), (4, 3), (2, 10)] }, if q { vec![1, 40] } else { vec![0, 5, 40, 300] }),
            c05_drain,
        ),
        over(sp_chain(3, &[4, 13, 70], vec![0, 30]), c05_drain),
        over(sp_tower(2, &[4, 9, 25], vec![0, 30]), c05_drain),
        over(sp_joins("join", JOIN, if q { 5 } else { 6 }, 4, vec![4]), c05_check_single),
        over(sp_pair(if q { 8 } else { 9 }, w(4)), c05_errors),
        over(sp_edge(if q { 6 } else { 8 }, vec![0, 2]), c05_errors),
        over(sp_mismatch_inner(if q { 3 } else { 4 }, vec![3]), c05_errors),
        over(sp_pair_text(if q { 8 } else { 9 }, vec![1, 3]), c05_errors),
        over(sp_surround("text", if q { 4 } else { 5 }, gen_text_node, vec![49, 51]), c05_errors),
        over(sp_surround("branch", if q { 4 } else { 5 }, gen_branch_node, vec![49, 51]), c05_errors),
        over(sp_surround("mismatched", if q { 3 } else { 4 }, gen_mismatched_node, vec![49, 51]), c05_errors),
        over(sp_surround("text", if q { 3 } else { 4 }, gen_text_node, vec![50]), c05_check_single),
        over(sp_trio(5, 5, if q { 10 } else { 11 }, vec![0, 3]), c05_errors),
        over(sp_texty("texty", TEXTY, if q { 6 } else { 7 }, vec![1, 3, 4]), c05_check_single),
        over(sp_trio(4, 4, if q { 8 } else { 9 }, vec![0, 2, 3]), c05_check_single),
        over(sp_gram("core-lean", CORE_LEAN, 5, w(4)), c05_check_single),
        over(sp_doc2(2, N_LEAF, if q { vec![0, 4, 9] } else { w(10) }), c05_check_single),
        over(sp_doc2(2, 6, if q { vec![3] } else { w(8) }), c05_check),
        over(
            sp_doc3(if q { &[0, 2, 7] } else { &[0, 1, 2, 7] }, if q { &[5] } else { &[0, 5] }, 2, 2, if q { vec![5] } else { vec![0, 3, 5, 9] }),
            c05_check_single,
        ),
    ]
}

// ---- C06: styles ------------------------------------------------------------------------------

use crate::gen::g;
pub const STYLES: Gram = Gram {
    leaves: &[g::la, g::nl, g::c0, g::cm1],
    join_leaves: &[g::left, g::right],
    unary: &[g::sty0, g::sty1, g::ind_s1, g::flat],
    binary: &[g::cat, g::alt],
    join_binary: &[],
    fold: true,
    count: false,
    right_cat: true,
    scoped: true,
};

pub const STYLES_PARENT: Gram = Gram {
    leaves: &[g::la, g::nl, g::c0],
    unary: &[g::sty0, g::ind_s1, g::flat],
    fold: false,
    ..STYLES
};
pub const STYLES_KID: Gram = Gram {
    leaves: &[g::text, g::nl],
    unary: &[g::sty1, g::ind_s1],
    fold: false,
    ..STYLES
};

fn style_leaf(k: usize) -> Proto {
    match k {
        0 => Proto::text(sty(2, cat(lit("'"), N::Text)), "x"),
        1 => Proto::branch(
            inds(
                "..",
                0,
                cats(vec![sty(1, child(0)), N::Nl, inds("--", 2, cats(vec![child(0), N::Nl])), lit("e")]),
            ),
            vec![t("u")],
        ),
        2 => Proto::branch(
            sty(0, alt(sty(1, flat(child(0))), ind("  ", sty(2, cat(N::Nl, child(0)))))),
            vec![Proto::text(alt(sty(0, cat(N::Text, N::Text)), sty(1, N::Text)), "信")],
        ),
        _ => unreachable!(),
    }
}

fn c06_check(case: &Case, ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    let root_style = [None, Some(Sty::tok(0))][ch.pick(2)];
    CHECK_LINES.set(true);
    check_whole(case, st, true, root_style)?;
    let e = elaborate(case.root, root_style);
    let laid = lay_out(case.root, e.clone(), case.width as u64);
    if laid.err.is_some() || !fails(&e).is_empty() {
        return Ok(());
    }
    let ctx = Ctx::new();
    let d = refs(&ctx, case.root);
    for path in some_paths(case.root) {
        let node = node_at(case.root, &path).unwrap();
        for target in targets_for(node) {
            if !matches!(laid.expect(&path, target), Expect::At(_)) {
                continue;
            }
            st.add("runs", 1);
            let o = match print_all(d, case.width, &path, target, root_style.as_ref()) {
                Ok(o) => o,
                Err(e) => return Err(format!("path {:?} {:?}: error {:?}", path, target, e)),
            };
            cmp_all(&o, &laid, true)
                .map_err(|m| format!("path {:?} {:?} root style {:?}: {}", path, target, root_style, m))?;
            for l in all_lines(&o) {
                for s in l {
                    if s.w as u64 != width_of(s.s) {
                        return Err(format!("segment {:?} has width {}", s.s, s.w));
                    }
                }
            }
        }
    }
    st.add("transitions", ctx.calls.get());
    Ok(())
}

fn c06(t: Tier) -> Vec<Universe> {
    let q = t == Tier::Quick;
    let max = if q { 6 } else { 7 };
    vec![
        over(sp_one_odd(if q { &[18] } else { &[9, 18, 33] }, if q { vec![9, 37] } else { vec![0, 9, 37, 80] }), c06_check),
        over(sp_big(t, &[(4, 5)], if q { vec![1, 40] } else { vec![0, 7, 40, 300] }), c06_check),
        over(
            Space {
                name: format!("styles<={}", max),
                describe: format!("every notation of at most {} operators over the style grammar, on a branch with 1..2 styled children of 3 shapes", max),
                src: Arc::new(move |ch| {
                    let s = 1 + ch.pick(max);
                    let n = STYLES.gen(ch, s, Cx::default())?;
                    let k = 1 + ch.pick(2);
                    let kids = (0..k).map(|_| style_leaf(ch.pick(3))).collect();
                    Some(Proto::branch(n, kids))
                }),
                widths: if q { vec![0, 5] } else { vec![0, 4, 12] },
            },
            c06_check,
        ),
        over(
            Space {
                name: format!("style-pair<={}", if q { 8 } else { 9 }),
                describe: "a node and its child, a text node, with all notations of together at most 8 (thorough: 9) operators over the style grammar (with the node's text in place of the child in the inner one), styles on both nodes".into(),
                src: Arc::new(move |ch| {
                    let total = if q { 8 } else { 9 };
                    let s = 1 + ch.pick(total - 1);
                    let n = STYLES_PARENT.gen(ch, s, Cx::default())?;
                    if !mentions_child(&n) {
                        return None;
                    }
                    let m = STYLES_KID.gen_upto(ch, total - s)?;
                    let kid = Proto::text(m, "tu");
                    Some(Proto::branch(n, vec![kid]))
                }),
                widths: if q { vec![0, 5] } else { vec![0, 4, 12] },
            },
            c06_check,
        ),
        over(sp_surround("styled", if q { 6 } else { 7 }, gen_styled_node, if q { vec![49, 51] } else { vec![48, 50, 52, 60] }), c06_check),
        over(sp_joins("join-styles", JOIN_STY, if q { 6 } else { 7 }, 4, if q { vec![5] } else { vec![3, 9] }), c06_check),
        over(sp_fold_sizes(if q { 5 } else { 6 }, if q { 12 } else { 33 }, vec![4, 20]), c06_check),
        over(sp_nest(if q { 3 } else { 4 }, &[3], vec![0, 5]), c06_check),
        over(sp_every_char(if q { 1 } else { 3 }, if q { vec![3] } else { vec![3, 4] }), c06_check),
        over(sp_doc2(2, N_LEAF, w(12)), c06_check),
        over(sp_chain(3, if q { &[4, 13, 70] } else { &[4, 9, 13, 30, 70, 200] }, vec![0, 30]), c06_check),
        over(sp_tower(if q { 1 } else { 2 }, &[4, 9, 25], vec![0, 30]), c06_check),
        over(
            sp_doc3(&[0, 4, 8], &[1, 4, 5], 2, 2, if q { vec![0, 3, 6, 12] } else { w(24) }),
            c06_check,
        ),
    ]
}

// ---- C07: work --------------------------------------------------------------------------------

/// For each node id: the lines it is displayed on.
fn spans(laid: &Laid) -> Vec<(u32, usize, usize)> {
    let mut v = vec![];
    let mut stack = vec![];
    for e in &laid.evs {
        match e {
            Ev::Start { id, at, .. } => stack.push((*id, at.line)),
            Ev::End { at } => {
                let (id, s) = stack.pop().unwrap();
                v.push((id, s, at.line));
            }
            _ => (),
        }
    }
    v
}

/// The nodes that may have to be opened to print lines lo..=hi: those displayed on these lines, and,
/// since where a line ends is only known once everything on it is, those that share a line with
/// such a node without containing it.
fn needed(laid: &Laid, lo: usize, hi: usize) -> std::collections::HashSet<u32> {
    // occurrences: id, first line, last line, enclosing occurrences
    let mut occ: Vec<(u32, usize, usize, Vec<usize>)> = vec![];
    let mut stack: Vec<usize> = vec![];
    for e in &laid.evs {
        match e {
            Ev::Start { id, at, .. } => {
                occ.push((*id, at.line, usize::MAX, stack.clone()));
                stack.push(occ.len() - 1);
            }
            Ev::End { at } => {
                let o = stack.pop().unwrap();
                occ[o].2 = at.line;
            }
            _ => (),
        }
    }
    let mut inside: Vec<bool> = occ.iter().map(|o| o.1 <= hi && o.2 >= lo).collect();
    let mut todo: Vec<usize> = (0..occ.len()).filter(|o| inside[*o]).collect();
    while let Some(d) = todo.pop() {
        for c in 0..occ.len() {
            if !inside[c] && occ[c].1 <= occ[d].2 && occ[c].2 >= occ[d].1 && !occ[c].3.contains(&d) {
                inside[c] = true;
                todo.push(c);
            }
        }
    }
    (0..occ.len()).filter(|o| inside[*o]).map(|o| occ[o].0).collect()
}

/// Print `up` and `down` lines around the focus.
fn print_some<'d>(
    d: DRef<'d, true>,
    width: u16,
    path: &[usize],
    target: Target,
    up: usize,
    down: usize,
) -> Result<(), PE> {
    let (u, _, dn) = ppp::pretty_print(d, width, path, target.real(), None)?;
    for l in u.take(up) {
        l?;
    }
    for l in dn.take(down) {
        l?;
    }
    Ok(())
}

fn choice_free(k: usize) -> N {
    match k {
        0 => template(2),
        1 => template(3),
        2 => template(5),
        3 => cnt(N::Empty, child(0), cats(vec![child(0), N::Nl, lit("-"), N::Nl, child(-1)])),
        4 => cnt(
            N::Empty,
            ind("  ", cats(vec![lit("{"), N::Nl, child(0), N::Nl, lit("}")])),
            flat(cats(vec![lit("{"), ind(" ", cats(vec![N::Nl, child(0), N::Nl, child(1)])), N::Nl, lit("}")])),
        ),
        5 => fold(cat(lit(">"), child(0)), cats(vec![N::Left, N::Nl, N::Nl, sty(0, N::Right)])),
        _ => unreachable!(),
    }
}

fn c07_exact(case: &Case, _ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    let e = elaborate(case.root, None);
    let laid = lay_out(case.root, e, case.width as u64);
    if laid.err.is_some() {
        return Ok(());
    }
    let spans = spans(&laid);
    for path in all_paths(case.root) {
        for target in [Target::Start, Target::End] {
            let f = match laid.expect(&path, target) {
                Expect::At(at) => at.line,
                _ => continue,
            };
            for (up, down) in [(0, 0), (1, 0), (0, 1), (2, 2)] {
                let ctx = Ctx::new();
                ctx.track.set(true);
                let d = refs(&ctx, case.root);
                st.add("runs", 1);
                if let Err(e) = print_some(d, case.width, &path, target, up, down) {
                    return Err(format!("path {:?} {:?}: error {:?}", path, target, e));
                }
                // one line of slack on either side
                let lo = f.saturating_sub(up + 1);
                let hi = f + down + 1;
                let needed = needed(&laid, lo, hi);
                for id in ctx.opened.borrow().iter() {
                    if !needed.contains(id) {
                        return Err(format!(
                            "path {:?} {:?}: printing lines {}..={} opened a node displayed only on lines {:?}",
                            path, target, f.saturating_sub(up), f + down,
                            spans.iter().filter(|(i, _, _)| i == id).map(|(_, s, t)| (*s, *t)).collect::<Vec<_>>()
                        ));
                    }
                }
                st.add("transitions", ctx.calls.get());
                st.outcome(hash_of(&(&laid.lines, f, up, down)));
            }
        }
    }
    Ok(())
}

/// A subtree that can be made arbitrarily large: a right-nested chain.
fn chain_note(kind: usize) -> N {
    match kind {
        0 => cats(vec![child(0), N::Nl, child(1)]),
        1 => cats(vec![child(0), alt(lit(" "), N::Nl), child(1)]),
        2 => cats(vec![child(0), lit(","), child(1)]),
        3 => alt(
            cats(vec![flat(child(0)), lit(" "), flat(child(1))]),
            cats(vec![child(0), N::Nl, ind(" ", child(1))]),
        ),
        _ => unreachable!(),
    }
}
fn chain(kind: usize, m: usize) -> Proto {
    let n = chain_note(kind);
    let mut p = t("zz");
    p.far = true;
    for _ in 0..m {
        let mut a = t("zz");
        a.far = true;
        p = Proto::branch(n.clone(), vec![a, p]);
        p.far = true;
    }
    p
}

/// Documents with several lines and some far-away parts of scale m.
fn scaled(k: &[usize], m: usize) -> Proto {
    // k = [root template, position of the near part, near kind, far kind, nesting]
    let roots: [N; 5] = [template(0), template(2), template(7), template(5), template(8)];
    let near = match k[2] {
        0 => t("x"),
        1 => leaf(5),
        2 => Proto::branch(template(0), vec![t("p"), t("q")]),
        _ => Proto::branch(template(1), vec![t("p"), leaf(4), t("q")]),
    };
    let far = || chain(k[3], m);
    let group = |ps: Vec<Proto>| Proto::branch(template(2), ps);
    let wrap = |p: Proto| match k[4] {
        0 => p,
        1 => Proto::branch(
            cats(vec![lit("{"), ind("  ", cat(N::Nl, child(0))), N::Nl, lit("}")]),
            vec![p],
        ),
        _ => group(vec![t("s1"), t("s2"), p, t("s3"), t("s4")]),
    };
    let pad = |s| group(vec![t(s), t(s), t(s)]);
    let mut kids = vec![];
    for i in 0..4 {
        if i == k[1] {
            kids.push(pad("before"));
            kids.push(wrap(near.clone()));
            kids.push(pad("after"));
        }
        kids.push(far());
    }
    Proto::branch(roots[k[0]].clone(), kids)
}

fn path_to_near(k: &[usize]) -> Vec<usize> {
    let mut p = vec![k[1] + 1];
    match k[4] {
        0 => (),
        1 => p.push(0),
        _ => p.push(2),
    }
    p
}

fn c07_scaling(panes: bool) -> Universe {
    use super::panes::{Content, Opts, Scene, Strat, Sz, P};
    Universe {
        name: if panes { "pane-scaling" } else { "scaling" }.into(),
        describe: if panes { "the same families, but 3 root templates, 1 near part and 2 nestings, displayed in a document pane of 1 or 3 rows, with the focus in its first, middle or last row: alone, of dynamic width, of dynamic height" } else { "document families: 5 root templates x 4 positions x 4 near parts x 4 kinds of far subtree (scaled 60 -> 160 cells) x 3 nestings x 2 targets x 2 windows x 3 widths; document calls must not grow with the scale" }.into(),
        body: Arc::new(move |ch, st| {
            let k = if panes {
                [[1, 4, 0][ch.pick(3)], ch.pick(4), 2, ch.pick(4), [0, 2][ch.pick(2)]]
            } else {
                [ch.pick(5), ch.pick(4), ch.pick(4), ch.pick(4), ch.pick(3)]
            };
            let (mode, height) = if panes { (1 + ch.pick(3), [0.0, 0.5, 1.0][ch.pick(3)]) } else { (0, 0.0) };
            let width = [4u16, 12, 30][ch.pick(3)];
            let target = [Target::Start, Target::End][if panes { 0 } else { ch.pick(2) }];
            let win = ch.pick(2);
            let path = path_to_near(&k);
            let mut calls = vec![];
            for m in [24usize, 60, 160] {
                let proto = scaled(&k, m);
                let root = proto.build(false).expect("harness: scaled");
                let e = elaborate(&root, None);
                let laid = lay_out(&root, e, width as u64);
                if laid.err.is_some() {
                    std::mem::forget(root);
                    return Verdict::Skip;
                }
                let f = match laid.expect(&path, target) {
                    Expect::At(at) => at.line,
                    _ => return Verdict::Skip,
                };
                let rows = 1 + 2 * win as u32;
                let (up, down) = if panes { (rows as usize, rows as usize) } else { (win, win) };
                // The far parts must indeed be outside the window.
                let lo = f.saturating_sub(up + 1);
                let hi = f + down + 1;
                let far_ids: Vec<u32> = {
                    let mut v = vec![];
                    fn rec(n: &Node, v: &mut Vec<u32>) {
                        if n.far {
                            v.push(n.id);
                        } else {
                            for c in &n.children {
                                rec(c, v);
                            }
                        }
                    }
                    rec(&root, &mut v);
                    v
                };
                if m == 24 {
                    // (at this scale, the far parts are wider than any of the widths)
                    let needed = needed(&laid, lo, hi);
                    if far_ids.iter().any(|id| needed.contains(id)) {
                        return Verdict::Skip;
                    }
                    continue;
                }
                let sp = spans(&laid);
                for (id, s, t) in &sp {
                    if far_ids.contains(id) && *s <= hi && *t >= lo {
                        return Verdict::Skip;
                    }
                }
                let ctx = Ctx::new();
                st.add("runs", 1);
                if panes {
                    let opts = Opts { path: path.clone(), target, height, strat: Strat::Full, set_focus: true };
                    let doc = P::Doc(0);
                    let pane = match mode {
                        1 => doc,
                        2 => P::Horz(vec![(Sz::Prop(1), P::Fill('.')), (Sz::Dyn, doc)]),
                        _ => P::Vert(vec![(Sz::Dyn, doc), (Sz::Prop(1), P::Fill('.'))]),
                    };
                    let contents = [Some(Content { root, opts })];
                    let sc = Scene { pane: &pane, contents: &contents, sty: Sty::NONE, w: width, h: rows };
                    if let (_, Err(e)) = sc.run(&ctx, 0) {
                        return Verdict::Bad(format!("error {:?}", e));
                    }
                } else if let Err(e) = print_some(refs(&ctx, &root), width, &path, target, up, down) {
                    return Verdict::Bad(format!("error {:?}", e));
                }
                calls.push((ctx.calls.get(), ctx.far_calls.get()));
                st.add("transitions", ctx.calls.get());
            }
            st.add("states", 1);
            st.add("scaled families compared", 1);
            st.outcome(hash_of(&(&calls, &k)));
            if calls[1].0 > calls[0].0 + 16 {
                return Verdict::Bad(format!(
                    "printing a window took {} document calls ({} on far-away nodes) when the far parts have 60 cells, but {} ({}) when they have 160; family {:?}, width {}, path {:?} {:?}\n{}",
                    calls[0].0, calls[0].1, calls[1].0, calls[1].1, k, width, path, target,
                    scaled(&k, 2).show()
                ));
            }
            Verdict::Ok
        }),
    }
}

/// Printing everything takes work proportional to the document (no quadratic re-scanning), since
/// the look-ahead of a choice ends at the line width.
fn c07_linear() -> Universe {
    Universe {
        name: "linear".into(),
        describe: "whole-document printing of 4 chain kinds x 3 wrappings at 3 widths, 300 -> 1200 cells: calls at most proportional (factor 4.6)".into(),
        body: Arc::new(|ch, st| {
            let kind = ch.pick(4);
            let wrap = ch.pick(3);
            let width = [3u16, 20, 60][ch.pick(3)];
            let target = [Target::Start, Target::End][ch.pick(2)];
            let mut calls = vec![];
            for m in [300usize, 1200] {
                let c = chain(kind, m);
                let proto = match wrap {
                    0 => c,
                    1 => Proto::branch(
                        alt(
                            cats(vec![lit("["), flat(child(0)), lit("]")]),
                            cats(vec![lit("["), N::Nl, child(0), N::Nl, lit("]")]),
                        ),
                        vec![c],
                    ),
                    _ => {
                        // a fold over many leaves, flow wrapped
                        let kids = (0..m).map(|_| t("zz")).collect();
                        Proto::branch(template([1, 2, 3, 11][kind]), kids)
                    }
                };
                let root = proto.build(false).expect("harness: chain");
                let ctx = Ctx::new();
                st.add("runs", 1);
                match print_all(refs(&ctx, &root), width, &[], target, None) {
                    Ok(o) => {
                        if o.above_err.is_some() || o.below_err.is_some() {
                            return Verdict::Bad("error while printing a chain".into());
                        }
                    }
                    Err(e) => return Verdict::Bad(format!("error {:?}", e)),
                }
                calls.push(ctx.calls.get());
            }
            st.add("states", 1);
            st.add("transitions", calls[0] + calls[1]);
            st.outcome(hash_of(&calls));
            if calls[1] * 10 > calls[0] * 46 {
                return Verdict::Bad(format!(
                    "printing 300 cells took {} document calls, printing 1200 cells {} (chain kind {}, wrapping {}, width {})",
                    calls[0], calls[1], kind, wrap, width
                ));
            }
            Verdict::Ok
        }),
    }
}

const UNTAKEN: Gram = Gram {
    leaves: &[g::la, g::nl, g::lw, g::lcd, g::left, g::right],
    unary: &[g::ind_gt],
    binary: &[g::cat, g::alt, g::chk0_c0],
    right_cat: true,
    ..CORE
};
/// Left and Right stand for the two lists.
fn put_lists(n: &N) -> N {
    let two = |a: &N, b: &N| (put_lists(a), put_lists(b));
    match n {
        N::Left => fold(child(0), cats(vec![N::Left, N::Nl, N::Right])),
        N::Right => fold(child(0), cats(vec![N::Left, alt(lit(", "), N::Nl), N::Right])),
        N::Cat(a, b) => {
            let (a, b) = two(a, b);
            cat(a, b)
        }
        N::Alt(a, b) => {
            let (a, b) = two(a, b);
            alt(a, b)
        }
        N::Check(c, p, a, b) => {
            let (a, b) = two(a, b);
            chk(*c, *p, a, b)
        }
        N::Indent(s, _, a) => ind(s, put_lists(a)),
        n => n.clone(),
    }
}
/// (lists, choices, a list in a first option)
fn lists(n: &N) -> (usize, usize, bool) {
    let sum = |a: (usize, usize, bool), b: (usize, usize, bool)| (a.0 + b.0, a.1 + b.1, a.2 || b.2);
    match n {
        N::Left | N::Right => (1, 0, false),
        N::Cat(a, b) | N::Check(_, _, a, b) => sum(lists(a), lists(b)),
        N::Alt(a, b) => {
            let (x, y) = (lists(a), lists(b));
            let (l, c, bad) = sum(x, y);
            (l, c + 1, bad || x.0 > 0)
        }
        N::Indent(_, _, a) => lists(a),
        _ => (0, 0, false),
    }
}

/// What a choice or a check does not select is not looked at.
fn c07_untaken(max: usize) -> Universe {
    Universe {
        name: format!("untaken<={}", max),
        describe: format!(
            "a node with every notation of at most {} operators (texts, newlines, indentation, a check, one choice) around one list of all children that stands in the second option of a choice or in a branch of a check; whenever the list is not displayed, printing must take the same number of document calls with 6 as with 40 children; widths 0, 2, 4, 8; from the start and from the end",
            max
        ),
        body: Arc::new(move |ch, st| {
            let n = match UNTAKEN.gen_upto(ch, max) {
                Some(n) => n,
                None => return Verdict::Skip,
            };
            let (l, c, bad) = lists(&n);
            if l != 1 || c > 1 || bad {
                return Verdict::Skip;
            }
            let n = put_lists(&n);
            let width = [0u16, 2, 4, 8][ch.pick(4)];
            let sat = ch.pick(2) as u8;
            let target = [Target::Start, Target::End][ch.pick(2)];
            let mut calls = vec![];
            for m in [6usize, 40] {
                let kids = (0..m).map(|_| t("k").conds(sat)).collect();
                let p = Proto::branch(n.clone(), kids);
                let root = match p.build(false) {
                    Some(r) => r,
                    None => return Verdict::Skip,
                };
                let e = elaborate(&root, None);
                let laid = lay_out(&root, e.clone(), width as u64);
                if laid.err.is_some() || !fails(&e).is_empty() {
                    return Verdict::Skip;
                }
                if laid.evs.iter().filter(|e| matches!(e, Ev::Start { .. })).count() > 1 {
                    return Verdict::Skip; // displayed
                }
                let ctx = Ctx::new();
                st.add("runs", 1);
                match print_all(refs(&ctx, &root), width, &[], target, None) {
                    Ok(o) if o.above_err.is_none() && o.below_err.is_none() => (),
                    Ok(_) => return Verdict::Bad(format!("error while printing\n{}", p.show())),
                    Err(e) => return Verdict::Bad(format!("error {:?}\n{}", e, p.show())),
                }
                calls.push(ctx.calls.get());
                st.add("transitions", ctx.calls.get());
            }
            st.add("states", 1);
            st.outcome(hash_of(&(&calls, width)));
            if calls[0] != calls[1] {
                return Verdict::Bad(format!(
                    "nothing of the list is displayed, but printing takes {} document calls with 6 children and {} with 40; width {}, {:?}\n{}",
                    calls[0], calls[1], width, target, Proto::branch(n, vec![t("k").conds(sat)]).show()
                ));
            }
            Verdict::Ok
        }),
    }
}

fn c07(tier: Tier) -> Vec<Universe> {
    let q = tier == Tier::Quick;
    let nt = 6;
    let sp = move |k1: usize, k2: usize| Space {
        name: format!("choice-free-k{}x{}", k1, k2),
        describe: format!("every choice-free document of depth 4 over {} templates: up to {} children, up to {} grandchildren, 2 leaf shapes below", nt, k1, k2),
        src: Arc::new(move |ch: &mut Chooser| {
            let small = |ch: &mut Chooser| match ch.pick(3) {
                0 => t("x"),
                1 => leaf(2),
                _ => Proto::branch(choice_free(3), vec![t("g"), leaf(2)]),
            };
            let mid = |ch: &mut Chooser| {
                let c = ch.pick(nt + 1);
                if c == nt {
                    small(ch)
                } else {
                    let m = 1 + ch.pick(k2);
                    Proto::branch(choice_free(c), (0..m).map(|_| small(ch)).collect())
                }
            };
            let r = ch.pick(nt);
            let k = 1 + ch.pick(k1);
            Some(Proto::branch(choice_free(r), (0..k).map(|_| mid(ch)).collect()))
        }),
        widths: vec![10],
    };
    vec![
        c07_untaken(if q { 7 } else { 9 }),
        over(sp(2, 2), c07_exact),
        if q { over(sp(3, 1), c07_exact) } else { over(sp(3, 2), c07_exact) },
        c07_scaling(false), c07_scaling(true),
        c07_linear(),
    ]
}

// ---- C08: document faults ---------------------------------------------------------------------

fn c08_check(case: &Case, ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    let e = elaborate(case.root, None);
    let laid = lay_out(case.root, e.clone(), case.width as u64);
    if laid.err.is_some() || !fails(&e).is_empty() {
        return Ok(());
    }
    let custom = ch.pick(2) == 0;
    for path in all_paths(case.root) {
        let node = node_at(case.root, &path).unwrap();
        let ts = [
            Target::Start,
            Target::End,
            if node.text.is_some() { Target::Text(1) } else { Target::Mark },
        ];
        for target in ts {
            let r = if custom {
                c08_runs::<true>(&laid, case, &path, target, st)
            } else {
                c08_runs::<false>(&laid, case, &path, target, st)
            };
            r.map_err(|m| format!("path {:?}, target {:?}: {}", path, target, m))?;
        }
    }
    // to_string
    let ctx = Ctx::new();
    let _ = ppp::pretty_print_to_string(refs(&ctx, case.root), case.width);
    for k in 1..=ctx.calls.get() {
        let ctx = Ctx::failing(k, false);
        st.add("runs", 1);
        st.add("faults injected", 1);
        match ppp::pretty_print_to_string(refs(&ctx, case.root), case.width) {
            Err(PE::PrettyDoc(DErr(j))) if j == k => (),
            r => {
                return Err(format!(
                    "pretty_print_to_string with document call {} failing gave {:?}",
                    k, r
                ))
            }
        }
    }
    st.outcome(hash_of(&laid.lines));
    st.add("transitions", laid.steps);
    Ok(())
}

use crate::doc::DErr;


fn c08_runs<const X: bool>(
    laid: &Laid,
    case: &Case,
    path: &[usize],
    target: Target,
    st: &mut Stats,
) -> Result<(), String>
where
    for<'x> DRef<'x, X>: PrettyDoc<'x, Style = Sty, Error = DErr>,
{
    // Without a fault: how many calls are there, and where is the focus?
    let total;
    let focus_line;
    {
        let ctx = Ctx::new();
        let r = print_all(DRef::<X>::new(&ctx, case.root), case.width, path, target, None);
        total = ctx.calls.get();
        focus_line = match (&r, laid.expect(path, target)) {
            (Ok(_), Expect::At(at)) => Some(at.line),
            _ => None,
        };
    }
    st.add("transitions", total);
    for k in 1..=total {
        for persistent in [false, true] {
            let ctx = Ctx::failing(k, persistent);
            let d = DRef::<X>::new(&ctx, case.root);
            let fail = |m: String| {
                format!(
                    "document call {} of {} fails{}: {}",
                    k,
                    total,
                    if persistent { " (and all later ones)" } else { "" },
                    m
                )
            };
            st.add("runs", 1);
            st.add("faults injected", 1);
            let mut seen = 0;
            let bad_err = |e: &PE| match e {
                PE::PrettyDoc(DErr(j)) => *j < k || (!persistent && *j != k),
                _ => true,
            };
            match ppp::pretty_print(d, case.width, path, target.real(), None) {
                Err(e) => {
                    if bad_err(&e) {
                        return Err(fail(format!("reported as {:?}", e)));
                    }
                    seen += 1;
                }
                Ok((up, f, down)) => {
                    let fl = match focus_line {
                        Some(l) => l,
                        None => {
                            // the fault-free run ends in an error
                            return Err(fail("printing succeeded all the same".to_string()));
                        }
                    };
                    let f: OLine = f.left_segments.iter().chain(f.right_segments.iter()).map(seg).collect();
                    cmp_line("(focused)", fl, &f, &laid.lines[fl], true).map_err(fail)?;
                    let mut at = fl as isize - 1;
                    let mut ended = false;
                    for r in up {
                        match r {
                            Ok(l) => {
                                if ended {
                                    continue; // after an error nothing is promised but termination
                                }
                                match line_at(laid, at) {
                                    Some(m) => cmp_line("(above)", at as usize, &oline(&l), m, true).map_err(fail)?,
                                    None => return Err(fail("extra line above".to_string())),
                                }
                                at -= 1;
                            }
                            Err(e) => {
                                if bad_err(&e) {
                                    return Err(fail(format!("reported as {:?}", e)));
                                }
                                if !ended {
                                    seen += 1;
                                }
                                ended = true;
                            }
                        }
                    }
                    if !ended && at != -1 {
                        return Err(fail(format!("upward lines ended silently at line {}", at)));
                    }
                    let mut at = fl + 1;
                    let mut ended = false;
                    for r in down {
                        match r {
                            Ok(l) => {
                                if ended {
                                    continue;
                                }
                                match laid.lines.get(at) {
                                    Some(m) => cmp_line("(below)", at, &oline(&l), m, true).map_err(fail)?,
                                    None => return Err(fail("extra line below".to_string())),
                                }
                                at += 1;
                            }
                            Err(e) => {
                                if bad_err(&e) {
                                    return Err(fail(format!("reported as {:?}", e)));
                                }
                                if !ended {
                                    seen += 1;
                                }
                                ended = true;
                            }
                        }
                    }
                    if !ended && at != laid.lines.len() {
                        return Err(fail(format!("downward lines ended silently after line {}", at - 1)));
                    }
                }
            }
            if ctx.failed.get() && seen == 0 {
                return Err(fail("the error was swallowed".to_string()));
            }
            if !ctx.failed.get() {
                return Err(fail("the failing call was not made this time".to_string()));
            }
        }
    }
    Ok(())
}

fn c08(t: Tier) -> Vec<Universe> {
    let q = t == Tier::Quick;
    vec![
        over(sp_rooted("branch", BRANCH, if q { 5 } else { 6 }, &[1, 2], 2, vec![3]), c08_check),
        over(sp_joins("join", JOIN, if q { 5 } else { 6 }, 4, vec![3]), c08_check),
        over(sp_fold_sizes(if q { 3 } else { 4 }, if q { 6 } else { 9 }, vec![8]), c08_check),
        over(sp_nest(3, if q { &[2] } else { &[1, 3] }, if q { vec![5] } else { vec![0, 5] }), c08_check),
        over(sp_texty("texty", TEXTY, if q { 6 } else { 7 }, vec![1, 3]), c08_check),
        over(sp_surround("text", if q { 3 } else { 4 }, gen_text_node, vec![49, 51]), c08_check),
        over(sp_trio(5, 5, if q { 9 } else { 10 }, vec![0, 3]), c08_check),
        over(sp_doc2(2, N_LEAF, if q { vec![0, 4, 9] } else { w(12) }), c08_check),
        over(sp_chain(3, if q { &[5] } else { &[5, 20] }, vec![0, 9]), c08_check),
        over(sp_tower(if q { 1 } else { 2 }, if q { &[3] } else { &[3, 5] }, vec![0, 9, 30]), c08_check),
        over(
            sp_doc3(&[0, 1, 8], &[1, 5], 2, 2, if q { vec![5] } else { vec![0, 5, 12] }),
            c08_check,
        ),
    ]
}

// ---- C09: mismatches --------------------------------------------------------------------------

/// Everything that can go wrong, on every kind of node.
pub const MISMATCH: Gram = Gram {
    leaves: &[g::c0, g::c1, g::cm2, g::text, g::nl, g::la],
    join_leaves: &[g::left, g::right],
    unary: &[g::flat],
    binary: &[g::cat, g::alt, g::chk_c1, g::chk_m2],
    join_binary: &[g::chk_left],
    fold: true,
    count: true,
    right_cat: true,
    scoped: true,
};

fn c09_check(case: &Case, _ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    check_whole(case, st, false, None)?;
    let e = elaborate(case.root, None);
    let laid = lay_out(case.root, e.clone(), case.width as u64);
    let fails = fails(&e);
    let clean = laid.err.is_none() && fails.is_empty();
    if !fails.is_empty() {
        st.add("mismatched cases", 1);
    }
    let ctx = Ctx::new();
    let d = refs(&ctx, case.root);
    // every path with components 0..=3 up to one level deeper than the document, plus a huge one
    let mut paths = all_paths(case.root);
    let mut more = vec![];
    for p in &paths {
        let n = node_at(case.root, p).unwrap();
        let k = n.children.len();
        for bad in [k, k + 1, usize::MAX] {
            let mut q = p.clone();
            q.push(bad);
            more.push(q.clone());
            q.push(0);
            more.push(q);
        }
    }
    paths.extend(more);
    for path in &paths {
        for target in [Target::Start, Target::End, Target::Mark, Target::Text(0), Target::Text(usize::MAX)] {
            st.add("runs", 1);
            let out = print_all(d, case.width, path, target, None);
            let expect = laid_expect(&laid, path, target);
            let fail = |m: String| format!("path {:?}, target {:?}: {}", path, target, m);
            let doc_err = |e: &PE| laid.err.iter().chain(fails.iter()).any(|k| same_err(e, *k));
            let check_err = |e: &PE| -> Result<(), String> {
                if doc_err(e) {
                    return Ok(());
                }
                let ok = match (e, expect) {
                    (PE::InvalidPath(i), Some(Expect::InvalidPath(j))) => *i == j,
                    (PE::MissingFocusMark, Some(Expect::MissingMark)) => true,
                    (PE::MissingText, Some(Expect::MissingText)) => true,
                    // no definite expectation: a focusing error of the kind that was asked for
                    (PE::InvalidPath(i), None | Some(Expect::Unspecified)) => path.contains(i),
                    (PE::MissingFocusMark, None | Some(Expect::Unspecified)) => target == Target::Mark,
                    (PE::MissingText, None | Some(Expect::Unspecified)) => matches!(target, Target::Text(_)),
                    _ => false,
                };
                if ok {
                    st_ok();
                    Ok(())
                } else {
                    Err(fail(format!("error {:?}, expected {:?}, errors of the document {:?} {:?}", e, expect, laid.err, fails)))
                }
            };
            match &out {
                Err(e) => check_err(e)?,
                Ok(o) => {
                    let mut erred = false;
                    for e in [&o.above_err, &o.below_err].into_iter().flatten() {
                        erred = true;
                        if !doc_err(e) {
                            return Err(fail(format!("error {:?} from an iterator; errors of the document {:?} {:?}", e, laid.err, fails)));
                        }
                    }
                    if let (false, Some(k)) = (erred, laid.err) {
                        return Err(fail(format!("everything was printed, but the document has error {:?}", k)));
                    }
                    if clean {
                        match expect {
                            Some(Expect::At(_)) | Some(Expect::Unspecified) => (),
                            x => return Err(fail(format!("printed, expected {:?}", x))),
                        }
                    }
                }
            }
        }
    }
    st.add("transitions", ctx.calls.get());
    Ok(())
}
fn st_ok() {}

/// The expected focus, if the layout is free of errors.
fn laid_expect(laid: &Laid, path: &[usize], target: Target) -> Option<Expect> {
    if laid.err.is_some() {
        return None;
    }
    Some(laid.expect(path, target))
}

fn sp_mismatch(max: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("mismatch<={}", max),
        describe: format!("every notation of at most {} operators over the mismatch grammar (children, text, counts, folds, checks), on a text node, or a branch with 0..3 children", max),
        src: Arc::new(move |ch| {
            let s = 1 + ch.pick(max);
            let n = MISMATCH.gen(ch, s, Cx::default())?;
            let k = ch.pick(5);
            Some(if k == 4 {
                Proto::text(n, "tt")
            } else {
                Proto::branch(n, (0..k).map(leaf).collect())
            })
        }),
        widths,
    }
}

/// A mismatched child inside a good document.
fn sp_mismatch_inner(max: usize, widths: Vec<u16>) -> Space {
    Space {
        name: format!("mismatch-inner<={}", max),
        describe: format!("a template over [leaf, X, leaf], X with every notation of at most {} operators over the mismatch grammar on a text or 0..2-child node", max),
        src: Arc::new(move |ch| {
            let s = 1 + ch.pick(max);
            let n = MISMATCH.gen(ch, s, Cx::default())?;
            let k = ch.pick(4);
            let x = if k == 3 {
                Proto::text(n, "tt")
            } else {
                Proto::branch(n, (0..k).map(leaf).collect())
            };
            let tp = [0usize, 1, 2, 8, 11, 12][ch.pick(6)];
            let at = ch.pick(3);
            let mut kids = vec![t("u"), leaf(2)];
            kids.insert(at, x);
            Some(Proto::branch(template(tp), kids))
        }),
        widths,
    }
}

/// Only printing it all, from the start.
fn c09_whole(case: &Case, _ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    if !fails(&elaborate(case.root, None)).is_empty() {
        st.add("mismatched cases", 1);
    }
    check_whole(case, st, false, None)
}

fn c09(t: Tier) -> Vec<Universe> {
    let q = t == Tier::Quick;
    vec![
        over(sp_indices(if q { 24 } else { 60 }), c09_whole),
        over(sp_nest(3, if q { &[0, 1] } else { &[0, 1, 2, 3] }, vec![0, 5]), c09_whole),
        over(sp_mismatch(if q { 6 } else { 7 }, vec![2]), c09_check),
        over(sp_surround("mismatched", if q { 3 } else { 4 }, gen_mismatched_node, vec![49, 51]), c09_check),
        over(sp_mismatch_inner(if q { 4 } else { 5 }, vec![3, 9]), c09_check),
        over(sp_pair(if q { 8 } else { 9 }, if q { vec![0, 2] } else { w(4) }), c09_check),
        over(sp_trio(5, 5, if q { 9 } else { 10 }, vec![0, 3]), c09_check),
        over(sp_edge(if q { 6 } else { 7 }, vec![0, 2]), c09_check),
        over(sp_surround("text", if q { 4 } else { 5 }, gen_text_node, vec![49, 51]), c09_check),
        over(sp_surround("branch", if q { 4 } else { 5 }, gen_branch_node, vec![49, 51]), c09_check),
        over(sp_doc2(2, N_LEAF, w(10)), c09_check),
        over(sp_tower(2, if q { &[4] } else { &[4, 9] }, vec![0, 9]), c09_check),
        over(sp_gram("core-lean", CORE_LEAN, if q { 6 } else { 7 }, w(3)), c09_check),
        over(sp_index(if q { 3 } else { 5 }, 3, vec![8]), c09_check),
    ]
}

// ---- C11: the calling contract ----------------------------------------------------------------

fn c11_check(case: &Case, _ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    fn summary(r: &Result<Out, PE>) -> String {
        match r {
            Err(e) => format!("{:?}", e),
            Ok(o) => format!(
                "{:?} | {:?} | {:?} | {:?} | {:?} {:?}",
                o.above, o.left, o.right, o.below, o.above_err, o.below_err
            ),
        }
    }
    let mut paths = some_paths(case.root);
    paths.push(vec![case.root.children.len()]);
    for path in &paths {
        for target in [Target::Start, Target::End, Target::Mark, Target::Text(1)] {
            let fail = |m: String| format!("path {:?}, target {:?}: {}", path, target, m);
            let a = Ctx::new();
            a.monitor.set(true);
            let ra = guarded(|| print_all(DRef::<true>::new(&a, case.root), case.width, path, target, None));
            if let Some(m) = a.breach.borrow().as_ref() {
                return Err(fail(format!("contract broken (sibling methods overridden): {}", m)));
            }
            let b = Ctx::new();
            b.monitor.set(true);
            let rb = guarded(|| print_all(DRef::<false>::new(&b, case.root), case.width, path, target, None));
            if let Some(m) = b.breach.borrow().as_ref() {
                return Err(fail(format!("contract broken (default sibling methods): {}", m)));
            }
            st.add("runs", 2);
            st.add("transitions", a.calls.get() + b.calls.get());
            let (sa, sb) = match (&ra, &rb) {
                (Ok(x), Ok(y)) => (summary(x), summary(y)),
                (Err(m), _) | (_, Err(m)) => return Err(fail(format!("panic: {}", m))),
            };
            if sa != sb {
                return Err(fail(format!(
                    "overriding the sibling methods changes the result:\n  overridden: {}\n  default:    {}",
                    sa, sb
                )));
            }
            st.outcome(hash_of(&sa));
        }
    }
    Ok(())
}

fn c11(t: Tier) -> Vec<Universe> {
    let q = t == Tier::Quick;
    vec![
        over(sp_rooted("branch", BRANCH, if q { 5 } else { 6 }, &[0, 1, 2, 3], 2, vec![3]), c11_check),
        over(sp_indices(if q { 16 } else { 40 }), c11_check),
        over(sp_fold_sizes(if q { 3 } else { 4 }, if q { 12 } else { 33 }, vec![8]), c11_check),
        over(sp_fold_checks(if q { 3 } else { 5 }, if q { 5 } else { 12 }, vec![9]), c11_check),
        over(sp_nest(if q { 3 } else { 4 }, &[3], vec![0, 5]), c11_check),
        over(sp_joins("join", JOIN, if q { 6 } else { 7 }, 4, vec![4]), c11_check),
        over(sp_mismatch(if q { 5 } else { 6 }, vec![2]), c11_check),
        over(sp_surround("mismatched", if q { 4 } else { 5 }, gen_mismatched_node, vec![49]), c11_check),
        over(sp_mismatch_inner(if q { 3 } else { 4 }, vec![5]), c11_check),
        over(sp_doc2(3, N_LEAF, if q { vec![0, 6, 12] } else { w(14) }), c11_check),
        over(sp_doc3(&[0, 1, 5, 8, 11], &[1, 5], 2, 2, if q { vec![0, 5, 12] } else { w(16) }), c11_check),
        over(sp_big(t, &[(1, 4)], if q { vec![40] } else { vec![0, 7, 40, 300] }), c11_check),
        over(sp_chain(if q { 2 } else { 3 }, &[4, 13, 70], vec![0, 30]), c11_check),
        over(sp_tower(2, if q { &[4] } else { &[4, 9, 25] }, vec![0, 9, 30]), c11_check),
    ]
}

pub fn props() -> Vec<Prop> {
    fn p(id: &'static str, level: &'static str, universes: fn(Tier) -> Vec<Universe>) -> Prop {
        Prop { id, level, universes, assumptions: &[] }
    }
    vec![
        p("C01", "model_checking", c01),
        p("C02", "model_checking", c02),
        p("C03", "model_checking", c03),
        p("C04", "model_checking", c04),
        p("C05", "model_checking", c05),
        p("C06", "model_checking", c06),
        p("C07", "model_checking", c07),
        p("C08", "model_checking", c08),
        p("C09", "model_checking", c09),
        p("C11", "model_checking", c11),
    ]
}
