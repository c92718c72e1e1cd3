//! C10, C18, C19, C22: properties of notations as values.

use super::docs::*;
use super::{Prop, Tier};
use crate::doc::Ctx;
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use partial_pretty_printer as ppp;
use ppp::notation_constructors as nc;
use ppp::{CheckPos, Notation, NotationError};
use std::rc::Rc;
use std::sync::Arc;

// ---- C10: validation --------------------------------------------------------------------------

/// The flaws, in the harness's own terms.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Flaw {
    LeftOutside,
    RightOutside,
    PosLeftOutside,
    PosRightOutside,
    NestedFold,
    NestedCount,
    ZeroChild,
    OneChild(isize),
    ZeroPosChild,
    OnePosChild(isize),
    TextInCount,
    TextInFold,
    TextAfterEol,
    Marks,
}

fn flaw_of(e: &NotationError) -> Flaw {
    use NotationError::*;
    match e {
        LeftOutsideJoin => Flaw::LeftOutside,
        RightOutsideJoin => Flaw::RightOutside,
        CheckPosLeftOutsideJoin => Flaw::PosLeftOutside,
        CheckPosRightOutsideJoin => Flaw::PosRightOutside,
        NestedFold => Flaw::NestedFold,
        NestedCount => Flaw::NestedCount,
        CountZeroChild => Flaw::ZeroChild,
        CountOneChildIndex(i) => Flaw::OneChild(*i),
        CountZeroCheckPosChild => Flaw::ZeroPosChild,
        CountOneCheckPosChildIndex(i) => Flaw::OnePosChild(*i),
        TextInsideCount => Flaw::TextInCount,
        TextInsideFold => Flaw::TextInFold,
        TextAfterEol => Flaw::TextAfterEol,
        MultipleFocusMarks => Flaw::Marks,
    }
}

/// Flaws of nesting: present or not, independent of layout.
fn structural(n: &N, count: Option<u8>, fold: Option<bool>, out: &mut Vec<Flaw>) {
    let outside_one = |i: isize| i != 0 && i != -1;
    match n {
        N::Empty | N::Nl | N::Eol | N::Lit(_) | N::Mark => (),
        N::Text => {
            if count.is_some() {
                out.push(Flaw::TextInCount)
            }
            if fold.is_some() {
                out.push(Flaw::TextInFold)
            }
        }
        N::Child(i) => {
            if count == Some(0) {
                out.push(Flaw::ZeroChild)
            }
            if count == Some(1) && outside_one(*i) {
                out.push(Flaw::OneChild(*i))
            }
        }
        N::Left => {
            if fold != Some(true) {
                out.push(Flaw::LeftOutside)
            }
        }
        N::Right => {
            if fold != Some(true) {
                out.push(Flaw::RightOutside)
            }
        }
        N::Flat(a) | N::Indent(_, _, a) | N::Style(_, a) => structural(a, count, fold, out),
        N::Cat(a, b) | N::Alt(a, b) => {
            structural(a, count, fold, out);
            structural(b, count, fold, out);
        }
        N::Check(_, p, a, b) => {
            match p {
                Pos::Here => (),
                Pos::Child(i) => {
                    if count == Some(0) {
                        out.push(Flaw::ZeroPosChild)
                    }
                    if count == Some(1) && outside_one(*i) {
                        out.push(Flaw::OnePosChild(*i))
                    }
                }
                Pos::Left => {
                    if fold != Some(true) {
                        out.push(Flaw::PosLeftOutside)
                    }
                }
                Pos::Right => {
                    if fold != Some(true) {
                        out.push(Flaw::PosRightOutside)
                    }
                }
            }
            structural(a, count, fold, out);
            structural(b, count, fold, out);
        }
        N::Count(z, o, m) => {
            if count.is_some() {
                out.push(Flaw::NestedCount)
            }
            structural(z, Some(0), fold, out);
            structural(o, Some(1), fold, out);
            structural(m, Some(2), fold, out);
        }
        N::Fold(f, j) => {
            if fold.is_some() {
                out.push(Flaw::NestedFold)
            }
            structural(f, count, Some(false), out);
            structural(j, count, Some(true), out);
        }
    }
}

/// What one way of resolving all choices lets one see, in order.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Pv {
    T,
    Eol,
    /// newline, or a child (of which nothing is known)
    Nl,
    Child,
    Mark(*const N),
    /// a fold, or a reference to folded children
    Unknown,
}

fn paths(n: &Rc<N>, flat: bool, flat_aware: bool) -> Vec<Vec<Pv>> {
    let one = |p: Pv| vec![vec![p]];
    match &**n {
        N::Empty => vec![vec![]],
        N::Nl => one(Pv::Nl),
        N::Eol => one(Pv::Eol),
        N::Lit(_) | N::Text => one(Pv::T),
        N::Child(_) => one(Pv::Child),
        N::Mark => one(Pv::Mark(Rc::as_ptr(n))),
        N::Left | N::Right | N::Fold(..) => one(Pv::Unknown),
        N::Flat(a) => paths(a, true, flat_aware),
        N::Indent(_, _, a) | N::Style(_, a) => paths(a, flat, flat_aware),
        N::Cat(a, b) => {
            let pa = paths(a, flat, flat_aware);
            let pb = paths(b, flat, flat_aware);
            let mut out = Vec::with_capacity(pa.len() * pb.len());
            for x in &pa {
                for y in &pb {
                    let mut v = x.clone();
                    v.extend(y.iter().copied());
                    out.push(v);
                }
            }
            out
        }
        N::Alt(a, _) if flat && flat_aware => paths(a, flat, flat_aware),
        N::Alt(a, b) | N::Check(_, _, a, b) => {
            let mut v = paths(a, flat, flat_aware);
            v.extend(paths(b, flat, flat_aware));
            v
        }
        N::Count(a, b, c) => {
            let mut v = paths(a, flat, flat_aware);
            v.extend(paths(b, flat, flat_aware));
            v.extend(paths(c, flat, flat_aware));
            v
        }
    }
}

/// The ways to resolve all choices, with every fold unrolled over 0 to 3 children. (Two joins of
/// one fold meet each other if it has 3 children, so that more of them show nothing new.)
fn unrolled(n: &Rc<N>, left: &[Vec<Pv>]) -> Vec<Vec<Pv>> {
    let mut v = match &**n {
        N::Left => left.to_vec(),
        N::Right => vec![vec![Pv::Child]],
        N::Flat(a) | N::Indent(_, _, a) | N::Style(_, a) => unrolled(a, left),
        N::Cat(a, b) => {
            let pb = unrolled(b, left);
            let mut out = vec![];
            for x in unrolled(a, left) {
                for y in &pb {
                    out.push(x.iter().chain(y).copied().collect());
                }
            }
            out
        }
        N::Alt(a, b) | N::Check(_, _, a, b) => {
            let mut v = unrolled(a, left);
            v.extend(unrolled(b, left));
            v
        }
        N::Count(a, b, c) => {
            let mut v = unrolled(a, left);
            v.extend(unrolled(b, left));
            v.extend(unrolled(c, left));
            v
        }
        N::Fold(f, j) => {
            let f = unrolled(f, &[]);
            let two = unrolled(j, &f);
            let three = unrolled(j, &two);
            let mut v = vec![vec![]];
            v.extend(f);
            v.extend(two);
            v.extend(three);
            v
        }
        _ => paths(n, false, false),
    };
    v.sort_by_key(|p| format!("{:?}", p));
    v.dedup();
    v
}

/// Flaws of order: (text after end-of-line on some path, a mark that comes second on every path)
fn ordered(n: &Rc<N>, flat: bool, flat_aware: bool) -> (bool, bool) {
    let ps = paths(n, flat, flat_aware);
    let mut eol = false;
    // mark -> reached on some path without an earlier mark
    let mut seen: Vec<(*const N, bool)> = vec![];
    for p in &ps {
        let mut at_eol = false;
        let mut marked = false;
        for e in p {
            match e {
                Pv::T => {
                    eol |= at_eol;
                    at_eol = false;
                }
                Pv::Eol => at_eol = true,
                Pv::Nl | Pv::Child => at_eol = false,
                Pv::Mark(m) => {
                    match seen.iter_mut().find(|x| x.0 == *m) {
                        Some(x) => x.1 |= !marked,
                        None => seen.push((*m, !marked)),
                    }
                    marked = true;
                }
                Pv::Unknown => {
                    at_eol = false;
                    marked = false;
                }
            }
        }
    }
    (eol, seen.iter().any(|x| !x.1))
}

/// The parts that are laid out on their own: the notation itself and the parts of each fold.
fn roots(n: &Rc<N>, flat: bool, out: &mut Vec<(Rc<N>, bool)>) {
    match &**n {
        N::Flat(a) => roots(a, true, out),
        N::Indent(_, _, a) | N::Style(_, a) => roots(a, flat, out),
        N::Cat(a, b) | N::Alt(a, b) | N::Check(_, _, a, b) => {
            roots(a, flat, out);
            roots(b, flat, out);
        }
        N::Count(a, b, c) => {
            roots(a, flat, out);
            roots(b, flat, out);
            roots(c, flat, out);
        }
        N::Fold(a, b) => {
            out.push((a.clone(), flat));
            out.push((b.clone(), flat));
            roots(a, flat, out);
            roots(b, flat, out);
        }
        _ => (),
    }
}

fn any(n: &N, f: &dyn Fn(&N) -> bool) -> bool {
    f(n) || match n {
        N::Flat(a) | N::Indent(_, _, a) | N::Style(_, a) => any(a, f),
        N::Cat(a, b) | N::Alt(a, b) | N::Fold(a, b) | N::Check(_, _, a, b) => any(a, f) || any(b, f),
        N::Count(a, b, c) => any(a, f) || any(b, f) || any(c, f),
        _ => false,
    }
}

/// (flaws validation has to report, flaws it may report)
fn flaws(n: &Rc<N>) -> (Vec<Flaw>, Vec<Flaw>) {
    let mut must = vec![];
    structural(n, None, None, &mut must);
    let mut may = must.clone();
    let mut rs = vec![(n.clone(), false)];
    roots(n, false, &mut rs);
    for (r, flat) in &rs {
        // A Flat leaves no second options. Validation is free to take that into account or not.
        let (e1, m1) = ordered(r, *flat, true);
        let (e2, m2) = ordered(r, *flat, false);
        if e1 && e2 {
            must.push(Flaw::TextAfterEol);
        }
        if e1 || e2 {
            may.push(Flaw::TextAfterEol);
        }
        if m1 && m2 {
            must.push(Flaw::Marks);
        }
        if m1 || m2 {
            may.push(Flaw::Marks);
        }
    }
    // What the accumulated part of a fold starts or ends with is not specified to be considered:
    // validation is free to report what can happen once the folds are unrolled.
    if any(n, &|n| matches!(n, N::Fold(..))) {
        for p in unrolled(n, &[]) {
            let (mut at_eol, mut marks) = (false, 0);
            for e in p {
                match e {
                    Pv::T => {
                        if at_eol {
                            may.push(Flaw::TextAfterEol);
                        }
                        at_eol = false;
                    }
                    Pv::Eol => at_eol = true,
                    Pv::Mark(_) => marks += 1,
                    _ => at_eol = false,
                }
            }
            if marks > 1 {
                may.push(Flaw::Marks);
            }
        }
    }
    must.sort();
    must.dedup();
    may.sort();
    may.dedup();
    (must, may)
}

/// On some path, a child follows an end-of-line directly.
fn child_after_eol(n: &Rc<N>) -> bool {
    paths(n, false, false).iter().any(|p| {
        let mut at_eol = false;
        p.iter().any(|e| {
            match e {
                Pv::Child => return at_eol,
                Pv::Eol => at_eol = true,
                Pv::Mark(_) => (),
                _ => at_eol = false,
            }
            false
        })
    })
}

fn has_child_ref_outside_count(n: &N) -> bool {
    match n {
        N::Count(..) => false,
        N::Child(_) | N::Check(_, Pos::Child(_), _, _) => true,
        N::Flat(a) | N::Indent(_, _, a) | N::Style(_, a) => has_child_ref_outside_count(a),
        N::Cat(a, b) | N::Alt(a, b) | N::Fold(a, b) | N::Check(_, _, a, b) => {
            has_child_ref_outside_count(a) || has_child_ref_outside_count(b)
        }
        _ => false,
    }
}

fn check_validation(n: N, st: &mut Stats) -> Result<(), String> {
    let n = Rc::new(n);
    let (must, may) = flaws(&n);
    let real = to_real(&n);
    let before = format!("{}", real);
    let r = guarded(|| real.validate()).map_err(|m| format!("validate panicked: {}", m))?;
    st.add("states", 1);
    st.add("transitions", 1);
    match r {
        Err(e) => {
            let f = flaw_of(&e);
            if !may.contains(&f) {
                return Err(format!(
                    "validation reports {:?}, which is not present (present: {:?})",
                    e, may
                ));
            }
            if let Flaw::OneChild(i) | Flaw::OnePosChild(i) = f {
                if !names(&e.to_string(), &[i as i64]) {
                    return Err(format!("the message of {:?} does not say which index: {:?}", e, e.to_string()));
                }
            }
            st.add("rejected", 1);
            st.outcome(hash_of(&f));
            Ok(())
        }
        Ok(valid) => {
            if !must.is_empty() {
                return Err(format!("validation accepts, but {:?} are present", must));
            }
            st.add("accepted", 1);
            let after = format!("{}", valid);
            if before != after {
                return Err(format!("validation altered the notation: {} became {}", before, after));
            }
            let has_text = any(&n, &|n| matches!(n, N::Text));
            let has_kids = any(&n, &|n| {
                matches!(n, N::Child(_) | N::Count(..) | N::Fold(..) | N::Check(_, Pos::Child(_), _, _))
            });
            let no_eol_promise = child_after_eol(&n) || any(&n, &|n| matches!(n, N::Fold(..)));
            let oob_promise = !has_child_ref_outside_count(&n);
            let mut docs: Vec<(usize, Proto)> = vec![];
            if !has_kids {
                docs.push((usize::MAX, Proto { text: Some("tu"), children: vec![], n: n.clone(), conds: 1, far: false }));
            }
            if !has_text {
                for k in 0..=3usize {
                    let kids = (0..k).map(|i| t(["x", "yy", "z"][i]).conds(i as u8 + 1)).collect();
                    docs.push((k, Proto { text: None, children: kids, n: n.clone(), conds: 2, far: false }));
                }
            }
            for (k, p) in docs {
                let root = p.build(false).expect("harness: validation is not deterministic");
                let e = elaborate(&root, None);
                let fs = fails(&e);
                for width in [0u16, 3, 30] {
                    let laid = lay_out(&root, e.clone(), width as u64);
                    let ctx = Ctx::new();
                    st.add("runs", 1);
                    let out = guarded(|| print_all(refs(&ctx, &root), width, &[], Target::Start, None))
                        .map_err(|m| {
                            format!("printing an accepted notation (children: {}) panicked: {}", k as isize, m)
                        })?;
                    compare_with_errors(&out, &laid, &fs, true)
                        .map_err(|m| format!("printing an accepted notation (children: {}): {}", k as isize, m))?;
                    let err = match &out {
                        Err(e) => Some(e),
                        Ok(o) => o.below_err.as_ref(),
                    };
                    match err {
                        Some(PE::TextAfterEndOfLine) if !no_eol_promise => {
                            return Err(format!(
                                "accepted, but printing (children: {}) puts text after an end-of-line",
                                k as isize
                            ))
                        }
                        Some(
                            e @ (PE::ChildIndexOutOfBounds { .. } | PE::CheckPosChildIndexOutOfBounds { .. }),
                        ) if oob_promise && k <= 1 => {
                            return Err(format!("accepted, but printing with {} children gives {:?}", k, e))
                        }
                        _ => (),
                    }
                }
            }
            Ok(())
        }
    }
}

const RAW: Gram = Gram {
    leaves: &[g::text, g::la, g::eol, g::nl, g::mark, g::emp, g::c0, g::c1, g::cm1, g::cm2],
    join_leaves: &[g::left, g::right],
    unary: &[g::flat, g::ind_gt, g::sty0],
    binary: &[g::cat, g::alt, g::chk_here, g::chk_c0, g::chk_c1, g::chk_m1, g::chk_m2],
    join_binary: &[g::chk_left, g::chk_right],
    fold: true,
    count: true,
    right_cat: false,
    scoped: false,
};
/// Transparent wrappers, in folds and counts.
const RAW_WRAP: Gram = Gram {
    leaves: &[g::la, g::eol, g::mark, g::c0, g::c1],
    join_leaves: &[g::left, g::right],
    unary: &[g::flat, g::ind_gt, g::ind_s1, g::sty0],
    binary: &[g::cat],
    join_binary: &[g::chk_left],
    fold: true,
    count: true,
    right_cat: false,
    scoped: false,
};
const RAW_ORDER: Gram = Gram {
    leaves: &[g::la, g::eol, g::nl, g::mark, g::c0],
    join_leaves: &[],
    unary: &[g::flat],
    binary: &[g::cat, g::alt],
    join_binary: &[],
    fold: false,
    count: false,
    right_cat: false,
    scoped: true,
};
const RAW_COUNT: Gram = Gram {
    leaves: &[g::la, g::eol, g::mark, g::c0],
    unary: &[],
    binary: &[g::cat, g::chk_here],
    count: true,
    ..RAW_ORDER
};
const RAW_INDEX: Gram = Gram {
    leaves: &[g::la, g::c0, g::c1, g::cm1, g::cm2],
    unary: &[],
    binary: &[g::cat, g::chk_c0, g::chk_c1, g::chk_m1, g::chk_m2],
    count: true,
    ..RAW_ORDER
};
const RAW_FOLD: Gram = Gram {
    leaves: &[g::la, g::eol, g::mark, g::c0],
    join_leaves: &[g::left, g::right],
    unary: &[],
    binary: &[g::cat, g::chk_here],
    join_binary: &[g::chk_left],
    fold: true,
    ..RAW_ORDER
};
const RAW_NEST: Gram = Gram {
    leaves: &[g::text, g::c0, g::c1],
    join_leaves: &[g::left, g::right],
    unary: &[g::flat, g::sty0],
    binary: &[g::cat],
    join_binary: &[g::chk_left, g::chk_right],
    fold: true,
    count: true,
    right_cat: false,
    scoped: false,
};

fn u_valid(name: &'static str, gr: Gram, lo: usize, hi: usize) -> Universe {
    Universe {
        name: format!("{}{}..{}", name, lo, hi),
        describe: format!(
            "every raw notation (valid or not) of {} to {} operators over the {} grammar; accepted ones are printed on a text node and on nodes with 0..3 children at widths 0, 3, 30",
            lo, hi, name
        ),
        body: Arc::new(move |ch, st| {
            let s = lo + ch.pick(hi - lo + 1);
            let n = match gr.gen(ch, s, Cx::default()) {
                Some(n) => n,
                None => return Verdict::Skip,
            };
            let sh = n.clone();
            match check_validation(n, st) {
                Ok(()) => {
                    if st.want_sample {
                        st.samples.push(show(&sh));
                    }
                    Verdict::Ok
                }
                Err(m) => Verdict::Bad(format!("{}\nnotation: {}", m, show(&sh))),
            }
        }),
    }
}

/// Flaws deep inside, or far apart.
fn u_valid_chain(depths: &'static [usize], max: usize) -> Universe {
    const W: usize = 13;
    fn wrap(k: usize, n: N) -> N {
        match k {
            0 => flat(n),
            1 => ind("  ", n),
            2 => sty(0, n),
            3 => cat(N::Empty, n),
            4 => cat(n, N::Empty),
            5 => alt(N::Empty, n),
            6 => alt(n, N::Empty),
            7 => N::Check(0, Pos::Here, Rc::new(n), Rc::new(N::Empty)),
            8 => N::Check(0, Pos::Here, Rc::new(N::Empty), Rc::new(n)),
            9 => cat(lit("t"), n),
            10 => cat(n, lit("t")),
            11 => cat(N::Nl, n),
            12 => cat(n, child(0)),
            _ => unreachable!(),
        }
    }
    fn outer(k: usize, n: N) -> N {
        let e = || Rc::new(N::Empty);
        match k {
            0 => n,
            1 => cat(N::Eol, n),
            2 => cat(n, lit("t")),
            3 => cat(N::Mark, n),
            4 => cat(n, N::Mark),
            5 => N::Count(Rc::new(n), e(), e()),
            6 => N::Count(e(), Rc::new(n), e()),
            7 => N::Count(e(), e(), Rc::new(n)),
            8 => N::Fold(Rc::new(n), Rc::new(cat(N::Left, N::Right))),
            9 => N::Fold(e(), Rc::new(n)),
            10 => flat(n),
            _ => unreachable!(),
        }
    }
    Universe {
        name: format!("chain-{}", max),
        describe: format!(
            "15 notations within {:?} wrappers that repeat a pattern of up to {} from {} kinds (flat, indent, style, empty before and after, either option of a choice or check, text, newline, child), all that within 11 surroundings (end-of-line or mark before, text or mark after, the parts of counts and folds)",
            depths, max, W
        ),
        body: Arc::new(move |ch, st| {
            let depth = depths[ch.pick(depths.len())];
            let m = 1 + ch.pick(max);
            let pat: Vec<usize> = (0..m).map(|_| ch.pick(W)).collect();
            let core = match ch.pick(15) {
                0 => lit("c"),
                1 => N::Eol,
                2 => N::Mark,
                3 => N::Nl,
                4 => N::Text,
                5 => child(0),
                6 => child(1),
                7 => N::Left,
                8 => cat(N::Left, N::Right),
                9 => N::Empty,
                10 => N::Check(0, Pos::Left, Rc::new(N::Empty), Rc::new(N::Eol)),
                11 => N::Check(0, Pos::Child(-2), Rc::new(N::Empty), Rc::new(N::Empty)),
                12 => N::Count(Rc::new(N::Eol), Rc::new(N::Empty), Rc::new(N::Mark)),
                13 => N::Fold(Rc::new(child(0)), Rc::new(cat(N::Left, N::Right))),
                _ => alt(N::Eol, N::Mark),
            };
            let mut n = core;
            for i in (0..depth).rev() {
                n = wrap(pat[i % m], n);
            }
            let n = outer(ch.pick(11), n);
            let sh = n.clone();
            match check_validation(n, st) {
                Ok(()) => Verdict::Ok,
                Err(m) => {
                    let s: String = show(&sh).chars().take(1500).collect();
                    Verdict::Bad(format!("{}\ndepth {}, pattern {:?}, notation: {}", m, depth, pat, s))
                }
            }
        }),
    }
}

fn c10(tier: Tier) -> Vec<Universe> {
    match tier {
        Tier::Quick => vec![
            u_valid("raw", RAW, 1, 6),
            u_valid("order", RAW_ORDER, 1, 9),
            u_valid("count", RAW_COUNT, 1, 10),
            u_valid("nest", RAW_NEST, 1, 7),
            u_valid("index", RAW_INDEX, 1, 7),
            u_valid("fold", RAW_FOLD, 1, 10),
            u_valid("wrap", RAW_WRAP, 1, 7),
            u_valid_chain(&[2, 9, 60], 2),
        ],
        Tier::Thorough => vec![
            u_valid("raw", RAW, 1, 7),
            u_valid("order", RAW_ORDER, 1, 10),
            u_valid("count", RAW_COUNT, 1, 11),
            u_valid("nest", RAW_NEST, 1, 8),
            u_valid("index", RAW_INDEX, 1, 8),
            u_valid("fold", RAW_FOLD, 1, 11),
            u_valid("wrap", RAW_WRAP, 1, 8),
            u_valid_chain(&[3, 9, 30, 200], 3),
        ],
    }
}

// ---- C18: the oracle --------------------------------------------------------------------------

fn has_empty_text(e: &E) -> bool {
    match e {
        E::Txt { s, .. } => s.is_empty(),
        E::Cat(a, b) | E::Alt(a, b) => has_empty_text(a) || has_empty_text(b),
        E::Node { inner, .. } => has_empty_text(inner),
        _ => false,
    }
}

fn check_oracle(case: &Case, _ch: &mut Chooser, st: &mut Stats) -> Result<(), String> {
    let e = elaborate(case.root, None);
    if has_empty_text(&e) || !fails(&e).is_empty() {
        st.add("empty texts or mismatches (outside the oracle's domain)", 1);
        return Ok(());
    }
    let ctx = Ctx::new();
    let doc = refs(&ctx, case.root);
    let real = match ppp::pretty_print_to_string(doc, case.width) {
        Ok(s) => s,
        Err(_) => {
            st.add("documents that print with an error (outside)", 1);
            return Ok(());
        }
    };
    st.add("runs", 2);
    let oracle = guarded(|| ppp::testing::oracular_pretty_print(doc, case.width))
        .map_err(|m| format!("the oracle panicked ({}), the printer gives {:?}", m, real))?;
    st.add("transitions", ctx.calls.get());
    st.outcome(hash_of(&real));
    if oracle != real {
        return Err(format!("the oracle gives {:?}, the printer {:?}", oracle, real));
    }
    Ok(())
}

/// Texts of thousands of columns, and widths near them.
fn u_oracle_long(lens: &'static [usize]) -> Universe {
    Universe {
        name: format!("long-{}", lens.len()),
        describe: format!(
            "8 shapes with choices before, around and after texts of {:?} columns (in pairs), at widths from 2 below to 6 above each of them and their sum, and 9999",
            lens
        ),
        body: std::sync::Arc::new(move |ch, st| {
            let text = |n: usize| -> Proto { t(Box::leak("x".repeat(n).into_boxed_str())) };
            let (n, m) = (lens[ch.pick(lens.len())], lens[ch.pick(lens.len())]);
            let base = [n, m, n + m, 9995][ch.pick(4)];
            let width = (base + ch.pick(9)).saturating_sub(2);
            if width > 9999 {
                return Verdict::Skip;
            }
            let or_nl = |s| alt(lit(s), N::Nl);
            let note = match ch.pick(8) {
                0 => cats(vec![or_nl("ab"), child(0)]),
                1 => cats(vec![or_nl("a"), child(0), or_nl("b"), child(1), or_nl("c")]),
                2 => cats(vec![alt(child(0), cats(vec![lit("x"), N::Nl, lit("y")])), child(1)]),
                3 => cats(vec![or_nl("a"), alt(child(0), cats(vec![child(1), N::Nl])), lit("zz")]),
                4 => template(0),
                5 => template(1),
                6 => template(7),
                _ => cats(vec![ind("  ", cats(vec![or_nl("a"), child(0)])), or_nl("b"), flat(child(1)), N::Nl, child(0)]),
            };
            let p = Proto::branch(note, vec![text(n), text(m)]);
            let root = match p.build(false) {
                Some(r) => r,
                None => return Verdict::Skip,
            };
            st.add("states", 1);
            let case = Case { proto: &p, root: &root, width: width as u16 };
            match check_oracle(&case, ch, st) {
                Ok(()) => Verdict::Ok,
                Err(m) => {
                    let m: String = m.chars().take(300).collect();
                    Verdict::Bad(format!("{}...\ntexts of {} and {} columns, width {}\n{}", m, n, m.len(), width, p.show()))
                }
            }
        }),
    }
}

fn c18(tier: Tier) -> Vec<Universe> {
    let s = match tier {
        Tier::Quick => vec![
            sp_gram("core", CORE, 6, w(6)),
            sp_gram("core-lean", CORE_LEAN, 9, vec![1, 3, 5]),
            sp_gram("core-choice", CORE_CHOICE, 10, vec![2, 4, 9999]),
            sp_doc2(4, N_LEAF, vec![0, 3, 6, 9, 14, 9999]),
            sp_rooted("branch", BRANCH, 6, &[1, 2], 6, vec![2, 5, 9]),
            sp_joins("join", JOIN, 7, 4, vec![2, 7]),
            sp_odd(2, 7, w(10)),
        ],
        Tier::Thorough => vec![
            sp_gram("core", CORE, 7, w(6)),
            sp_gram("core-lean", CORE_LEAN, 10, vec![1, 2, 3, 4, 5, 7]),
            sp_gram("core-choice", CORE_CHOICE, 11, vec![1, 2, 3, 4, 6, 9999]),
            sp_doc2(4, N_LEAF, vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 20, 9999]),
            sp_doc3(&[0, 1, 2, 5, 7, 8], &[0, 1, 3, 5, 10], 2, 2, vec![1, 3, 5, 7, 9, 12, 16, 22, 9999]),
            sp_rooted("branch", BRANCH, 7, &[1, 2], 5, vec![2, 5, 9]),
            sp_joins("join", JOIN, 8, 4, vec![2, 5, 9]),
            sp_odd(3, 7, w(12)),
        ],
    };
    let mut v: Vec<Universe> = s.into_iter().map(|s| over(s, check_oracle)).collect();
    v.push(u_oracle_long(match tier {
        Tier::Quick => &[3, 127, 255, 256, 999, 1000, 1001, 1024, 2048, 4095, 4096, 4999, 5000, 8192, 9990, 9998, 9999, 10000, 10001],
        Tier::Thorough => &[
            3, 20, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047,
            2048, 2049, 3000, 4095, 4096, 4097, 4999, 5000, 5001, 7500, 8191, 8192, 8193, 9000, 9990, 9995, 9998, 9999, 10000, 10001, 12000,
        ],
    }));
    v
}

// ---- C19: serialization -----------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
enum BigLabel {
    Unit,
    Num(i64),
    Rec { name: String, bits: Vec<u8> },
}

fn pos_eq(a: &CheckPos, b: &CheckPos) -> bool {
    match (a, b) {
        (CheckPos::Here, CheckPos::Here) => true,
        (CheckPos::Child(i), CheckPos::Child(j)) => i == j,
        (CheckPos::LeftChild, CheckPos::LeftChild) => true,
        (CheckPos::RightChild, CheckPos::RightChild) => true,
        _ => false,
    }
}
/// Structural equality, written out (Notation has no PartialEq).
fn same<A, B>(a: &Notation<A, B>, b: &Notation<A, B>) -> bool
where
    A: PartialEq + Clone + std::fmt::Debug,
    B: PartialEq + Clone + std::fmt::Debug,
{
    use Notation::*;
    match (a, b) {
        (Empty, Empty) | (Newline, Newline) | (EndOfLine, EndOfLine) | (Text, Text) => true,
        (FocusMark, FocusMark) | (Left, Left) | (Right, Right) => true,
        (Literal(x), Literal(y)) => x == y,
        (Child(x), Child(y)) => x == y,
        (Flat(x), Flat(y)) => same(x, y),
        (Indent(s, l, x), Indent(t, m, y)) => s == t && l == m && same(x, y),
        (Style(l, x), Style(m, y)) => l == m && same(x, y),
        (Concat(x, y), Concat(u, v)) | (Choice(x, y), Choice(u, v)) => same(x, u) && same(y, v),
        (Check(c, p, x, y), Check(d, q, u, v)) => c == d && pos_eq(p, q) && same(x, u) && same(y, v),
        (Count { zero, one, many }, Count { zero: z, one: o, many: m }) => {
            same(zero, z) && same(one, o) && same(many, m)
        }
        (Fold { first, join }, Fold { first: f, join: j }) => same(first, f) && same(join, j),
        _ => false,
    }
}

fn round_trips<A, B>(n: &Notation<A, B>) -> Result<Vec<(&'static str, Notation<A, B>)>, String>
where
    A: Clone + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned,
    B: Clone + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned,
{
    let mut out = vec![];
    let e = |f: &str, x: String| format!("{}: {}", f, x);
    let s = serde_json::to_string(n).map_err(|x| e("to JSON", x.to_string()))?;
    out.push(("JSON text", serde_json::from_str(&s).map_err(|x| e("from JSON", x.to_string()))?));
    let v = serde_json::to_value(n).map_err(|x| e("to JSON value", x.to_string()))?;
    out.push(("JSON value", serde_json::from_value(v).map_err(|x| e("from JSON value", x.to_string()))?));
    let b = bincode::serialize(n).map_err(|x| e("to bincode", x.to_string()))?;
    out.push(("bincode", bincode::deserialize(&b).map_err(|x| e("from bincode", x.to_string()))?));
    Ok(out)
}

fn check_serial(n: &N, print: bool, st: &mut Stats) -> Result<(), String> {
    let real = to_real(n);
    let verdict = |n: Notation<L, C>| match n.validate() {
        Ok(v) => format!("accepted {}", v),
        Err(e) => format!("{:?}", e),
    };
    let v0 = verdict(real.clone());
    st.add("states", 1);
    for (f, back) in round_trips(&real)? {
        st.add("transitions", 2);
        if !same(&real, &back) {
            return Err(format!("through {}: {:?} became {:?}", f, real, back));
        }
        let v1 = verdict(back.clone());
        if v0 != v1 {
            return Err(format!("through {}: validation gives {} instead of {}", f, v1, v0));
        }
        // the same with structured labels and conditions
        if print {
            let mk = |n: Notation<L, C>| -> Option<Proto> {
                n.validate().ok()?;
                Some(Proto::branch(to_model(&back), vec![t("x"), t("yz").conds(1)]).conds(2))
            };
            if let Some(p) = mk(back.clone()) {
                let q = Proto::branch(n.clone(), vec![t("x"), t("yz").conds(1)]).conds(2);
                let (a, b) = (q.build(false).unwrap(), p.build(false).unwrap());
                for width in [0u16, 4, 40] {
                    let (c1, c2) = (Ctx::new(), Ctx::new());
                    let x = print_all(refs(&c1, &a), width, &[], Target::Start, None);
                    let y = print_all(refs(&c2, &b), width, &[], Target::Start, None);
                    st.add("runs", 2);
                    if show_out(&x) != show_out(&y) {
                        return Err(format!("through {}: prints differently at width {}", f, width));
                    }
                }
            }
        }
    }
    let big = map_real(n);
    for (f, back) in round_trips(&big)? {
        if !same(&big, &back) {
            return Err(format!("through {}: {:?} became {:?}", f, big, back));
        }
    }
    st.outcome(hash_of(n));
    Ok(())
}

/// Back from the real type.
fn to_model(n: &Notation<L, C>) -> N {
    fn leak(s: &str) -> S {
        // the strings are the few literals of the grammar
        for k in ["a", "bb", "cde", "信", "", "> ", " ", "宽", "|", "\"\\/\u{7f}é\t'{}[],:", "null"] {
            if s == k {
                return k;
            }
        }
        panic!("harness: unknown literal {:?}", s)
    }
    match n {
        Notation::Empty => N::Empty,
        Notation::Newline => N::Nl,
        Notation::EndOfLine => N::Eol,
        Notation::Literal(s) => N::Lit(leak(s)),
        Notation::Text => N::Text,
        Notation::Flat(a) => flat(to_model(a)),
        Notation::Indent(s, l, a) => N::Indent(leak(s), *l, Rc::new(to_model(a))),
        Notation::Concat(a, b) => cat(to_model(a), to_model(b)),
        Notation::Choice(a, b) => alt(to_model(a), to_model(b)),
        Notation::Check(c, p, a, b) => chk(
            *c,
            match p {
                CheckPos::Here => Pos::Here,
                CheckPos::Child(i) => Pos::Child(*i),
                CheckPos::LeftChild => Pos::Left,
                CheckPos::RightChild => Pos::Right,
            },
            to_model(a),
            to_model(b),
        ),
        Notation::Child(i) => N::Child(*i),
        Notation::Style(l, a) => sty(*l, to_model(a)),
        Notation::FocusMark => N::Mark,
        Notation::Count { zero, one, many } => cnt(to_model(zero), to_model(one), to_model(many)),
        Notation::Fold { first, join } => fold(to_model(first), to_model(join)),
        Notation::Left => N::Left,
        Notation::Right => N::Right,
    }
}

fn big_label(l: L) -> BigLabel {
    match l {
        0 => BigLabel::Unit,
        1 => BigLabel::Num(-7),
        _ => BigLabel::Rec { name: "a\"b".into(), bits: vec![0, 255] },
    }
}
fn map_real(n: &N) -> Notation<BigLabel, String> {
    fn go(n: &Notation<L, C>) -> Notation<BigLabel, String> {
        use Notation::*;
        let b = |n: &Notation<L, C>| Box::new(go(n));
        match n {
            Empty => Empty,
            Newline => Newline,
            EndOfLine => EndOfLine,
            Literal(s) => Literal(s.clone()),
            Text => Text,
            Flat(a) => Flat(b(a)),
            Indent(s, l, a) => Indent(s.clone(), l.map(big_label), b(a)),
            Concat(x, y) => Concat(b(x), b(y)),
            Choice(x, y) => Choice(b(x), b(y)),
            Check(c, p, x, y) => Check(format!("cond {}", c), p.clone(), b(x), b(y)),
            Child(i) => Child(*i),
            Style(l, a) => Style(big_label(*l), b(a)),
            FocusMark => FocusMark,
            Count { zero, one, many } => Count { zero: b(zero), one: b(one), many: b(many) },
            Fold { first, join } => Fold { first: b(first), join: b(join) },
            Left => Left,
            Right => Right,
        }
    }
    go(&to_real(n))
}

fn show_out(o: &Result<Out, PE>) -> String {
    match o {
        Err(e) => format!("error {:?}", e),
        Ok(o) => {
            let mut s = String::new();
            for l in all_lines(o) {
                let mut last = None;
                for (c, sty) in chars_o(&l) {
                    if last != Some(sty) {
                        s.push_str(&format!("{:?}", sty));
                        last = Some(sty);
                    }
                    s.push(c);
                }
                s.push('\n');
            }
            s.push_str(&format!("{:?} {:?}", o.above_err, o.below_err));
            s
        }
    }
}

mod ser {
    use super::*;
    pub fn weird() -> N {
        lit("\"\\/\u{7f}é\t'{}[],:")
    }
    pub fn null() -> N {
        lit("null")
    }
    pub fn cmax() -> N {
        child(isize::MAX)
    }
    pub fn cmin() -> N {
        child(isize::MIN)
    }
    pub fn ind_weird(a: N) -> N {
        ind("\"\\/\u{7f}é\t'{}[],:", a)
    }
    pub fn ind_0(a: N) -> N {
        inds("", 0, a)
    }
    pub fn ind_2(a: N) -> N {
        inds("|", 2, a)
    }
    pub fn sty2(a: N) -> N {
        sty(2, a)
    }
    pub fn chk_min(a: N, b: N) -> N {
        chk(1, Pos::Child(isize::MIN), a, b)
    }
}
const SERIAL: Gram = Gram {
    leaves: &[
        g::emp, g::nl, g::eol, g::text, g::mark, g::la, g::le, ser::weird, ser::null, g::c0, g::cm1,
        ser::cmax, ser::cmin,
    ],
    join_leaves: &[g::left, g::right],
    unary: &[g::flat, g::ind_gt, g::ind_s1, ser::ind_weird, ser::ind_0, ser::ind_2, g::sty0, g::sty1, ser::sty2],
    binary: &[g::cat, g::alt, g::chk_here, g::chk_c0, g::chk_m1, ser::chk_min],
    join_binary: &[g::chk_left, g::chk_right],
    fold: true,
    count: true,
    right_cat: false,
    scoped: false,
};
const SERIAL_LEAN: Gram = Gram {
    leaves: &[g::la, g::nl, g::eol, g::c0],
    join_leaves: &[g::left, g::right],
    unary: &[g::flat, g::ind_s1, g::sty1],
    binary: &[g::cat, g::alt],
    join_binary: &[g::chk_left],
    fold: true,
    count: true,
    right_cat: false,
    scoped: true,
};

fn u_serial(name: &'static str, gr: Gram, max: usize, print: bool) -> Universe {
    Universe {
        name: format!("{}<={}", name, max),
        describe: format!(
            "every notation (valid or not) of at most {} operators over the {} grammar, through JSON text, JSON values and bincode, with integer and with structured labels and conditions{}",
            max, name, if print { "; valid ones printed before and after" } else { "" }
        ),
        body: Arc::new(move |ch, st| {
            let n = match gr.gen_upto(ch, max) {
                Some(n) => n,
                None => return Verdict::Skip,
            };
            match guarded(|| check_serial(&n, print, st)) {
                Err(m) if m.contains("harness:") => panic!("{}", m),
                Err(m) => Verdict::Bad(format!("panic: {}\nnotation: {}", m, show(&n))),
                Ok(Ok(())) => {
                    if st.want_sample {
                        st.samples.push(show(&n));
                    }
                    Verdict::Ok
                }
                Ok(Err(m)) => Verdict::Bad(format!("{}\nnotation: {}", m, show(&n))),
            }
        }),
    }
}

fn u_serial_chain(depth: usize) -> Universe {
    Universe {
        name: format!("chain<={}", depth),
        describe: format!("each constructor nested in itself, on each side, to every depth up to {}", depth),
        body: Arc::new(move |ch, st| {
            let d = 1 + ch.pick(depth);
            let op = ch.pick(11);
            let mut n = N::Lit("a");
            for _ in 0..d {
                n = match op {
                    0 => flat(n),
                    1 => inds("|", 2, n),
                    2 => sty(2, n),
                    3 => cat(N::Lit("a"), n),
                    4 => cat(n, N::Lit("a")),
                    5 => alt(N::Lit("a"), n),
                    6 => alt(n, N::Lit("a")),
                    7 => chk(0, Pos::Here, n, N::Nl),
                    8 => chk(1, Pos::Child(-1), N::Nl, n),
                    9 => cnt(N::Empty, N::Nl, n),
                    _ => fold(n, N::Right),
                };
            }
            match check_serial(&n, false, st) {
                Ok(()) => Verdict::Ok,
                Err(m) => Verdict::Bad(m),
            }
        }),
    }
}

/// Every position that holds a number or a string, with many numbers and strings.
fn u_serial_values(max_len: usize) -> Universe {
    Universe {
        name: format!("values<={}", max_len),
        describe: format!(
            "child indices and positions of checks: -40 to 40 and around every power of two, both signs; literals and indentations: every character up to U+0300, 14 others, alone and in the middle; every length up to 300, and around every power of two up to {}; styles and conditions of several kinds",
            max_len
        ),
        body: Arc::new(move |ch, st| {
            let wrap = |k: usize, s: &str, i: isize| -> Notation<BigLabel, String> {
                let b = |n| Box::new(n);
                let x = || Notation::Literal("x".to_string());
                match k {
                    0 => Notation::Child(i),
                    1 => Notation::Check("c".into(), CheckPos::Child(i), b(x()), b(Notation::Child(i))),
                    2 => Notation::Fold { first: b(Notation::Child(i)), join: b(Notation::Left) },
                    3 => Notation::Style(BigLabel::Num(i as i64), b(Notation::Child(i))),
                    4 => Notation::Literal(s.into()),
                    5 => Notation::Indent(s.into(), None, b(Notation::Newline)),
                    6 => Notation::Indent(s.into(), Some(BigLabel::Rec { name: s.into(), bits: s.bytes().take(20).collect() }), b(Notation::Newline)),
                    7 => Notation::Check(s.into(), CheckPos::Here, b(Notation::Literal(s.into())), b(x())),
                    8 => Notation::Concat(b(x()), b(Notation::Literal(s.into()))),
                    _ => unreachable!(),
                }
            };
            let k = ch.pick(9);
            let mut s = String::new();
            let mut i = 0isize;
            if k < 4 {
                i = match ch.pick(2) {
                    0 => ch.pick(81) as isize - 40,
                    _ => {
                        let p = 1i128 << (5 + ch.pick(59));
                        let v = (p + ch.pick(3) as i128 - 1) * if ch.pick(2) == 0 { 1 } else { -1 };
                        match isize::try_from(v) {
                            Ok(v) => v,
                            Err(_) => return Verdict::Skip,
                        }
                    }
                };
            } else {
                const ODD: &[char] = &[
                    '\u{4FE1}', '\u{200B}', '\u{200D}', '\u{2028}', '\u{2029}', '\u{D7FF}', '\u{E000}', '\u{FEFF}',
                    '\u{FFFD}', '\u{FFFF}', '\u{10000}', '\u{1F600}', '\u{E0041}', '\u{10FFFF}',
                ];
                match ch.pick(3) {
                    0 => {
                        let n = ch.pick(0x300 + ODD.len());
                        let c = if n < 0x300 { char::from_u32(n as u32).unwrap() } else { ODD[n - 0x300] };
                        match ch.pick(4) {
                            0 => s.push(c),
                            1 => s.extend(['a', c, 'b']),
                            2 => s.extend([' ', c, ' ']),
                            _ => s.extend([c, c, '\\', c]),
                        }
                    }
                    1 => s.extend(std::iter::repeat(['a', '\u{4FE1}', ' '][ch.pick(3)]).take(ch.pick(301))),
                    _ => {
                        let n = (1usize << (8 + ch.pick(16))) + ch.pick(3) - 1;
                        if n > max_len {
                            return Verdict::Skip;
                        }
                        s.extend((0..n).map(|i| ['a', '\u{E9}', 'b', '"'][i % 4]));
                    }
                }
            }
            let n = wrap(k, &s, i);
            st.add("states", 1);
            st.outcome(hash_of(&(k, &s, i)));
            let r = guarded(|| {
                for (f, back) in round_trips(&n)? {
                    st.add("transitions", 2);
                    if !same(&n, &back) {
                        let cut = |n| format!("{:?}", n).chars().take(300).collect::<String>();
                        return Err(format!("through {}: {} became {}", f, cut(&n), cut(&back)));
                    }
                }
                Ok(())
            });
            match r {
                Ok(Ok(())) => Verdict::Ok,
                Ok(Err(m)) => Verdict::Bad(m),
                Err(m) => Verdict::Bad(format!("panic: {}", m)),
            }
        }),
    }
}

fn c19(tier: Tier) -> Vec<Universe> {
    match tier {
        Tier::Quick => vec![
            u_serial("serial", SERIAL, 5, true),
            u_serial("serial-lean", SERIAL_LEAN, 7, true),
            u_serial_chain(60),
            u_serial_values(70000),
        ],
        Tier::Thorough => vec![
            u_serial("serial", SERIAL, 5, true),
            u_serial("serial-lean", SERIAL_LEAN, 8, true),
            u_serial_chain(60),
            u_serial_values(9000000),
        ],
    }
}

// ---- C22: algebra -----------------------------------------------------------------------------

const OPERAND: Gram = Gram {
    leaves: &[g::la, g::nl, g::eol, g::lcd, g::emp],
    join_leaves: &[],
    unary: &[g::flat, g::ind_s1],
    binary: &[g::cat, g::alt],
    join_binary: &[],
    fold: false,
    count: false,
    right_cat: false,
    scoped: true,
};
const OPERAND_DOC: Gram = Gram {
    leaves: &[g::c0, g::cm1, g::la, g::nl],
    join_leaves: &[g::left, g::right],
    unary: &[g::flat, g::sty0],
    binary: &[g::cat, g::alt, g::chk_c0],
    join_binary: &[g::chk_left],
    fold: true,
    count: false,
    right_cat: false,
    scoped: true,
};

const N_CONTEXT: usize = 17;
/// Notations with a hole.
fn context(k: usize, h: N) -> N {
    match k {
        0 => h,
        1 => cat(lit("ab"), h),
        2 => cat(h, lit("ab")),
        3 => cat(lit("a"), cat(h, lit("b"))),
        4 => cat(h, N::Nl),
        5 => cat(N::Nl, cat(h, lit("b"))),
        6 => ind("> ", cat(lit("p"), cat(N::Nl, h))),
        7 => flat(cat(h, lit("z"))),
        8 => alt(h.clone(), cat(N::Nl, h)),
        9 => alt(cat(lit("long"), h), lit("s")),
        10 => alt(lit("(maybe)"), h),
        11 => cat(alt(lit("abc"), lit("a")), h),
        12 => cat(h, alt(lit("abc"), N::Nl)),
        13 => cat(h, cat(N::Eol, N::Nl)),
        14 => cat(alt(cat(lit("#"), N::Eol), lit("#")), h),
        15 => inds("|", 1, sty(2, cat(N::Nl, cat(alt(h, lit("q")), lit("r"))))),
        16 => cat(alt(lit("xyz"), N::Nl), cat(h, cat(alt(lit("1234"), N::Empty), lit(";")))),
        _ => unreachable!(),
    }
}

const N_LAW: usize = 21;
/// The number of operands of a law.
fn arity(law: usize) -> usize {
    match law {
        2 | 16 | 19 | 20 => 3,
        0 | 1 | 4 | 6 | 11 | 14 | 17 | 18 => 1,
        _ => 2,
    }
}
/// Both sides of a law. `gen` supplies operands.
fn law(k: usize, gen: &mut dyn FnMut() -> Option<N>) -> Option<(&'static str, N, N)> {
    Some(match k {
        0 => {
            let x = gen()?;
            ("empty + x = x", cat(N::Empty, x.clone()), x)
        }
        1 => {
            let x = gen()?;
            ("x + empty = x", cat(x.clone(), N::Empty), x)
        }
        2 => {
            let (x, y, z) = (gen()?, gen()?, gen()?);
            (
                "(x + y) + z = x + (y + z)",
                cat(cat(x.clone(), y.clone()), z.clone()),
                cat(x, cat(y, z)),
            )
        }
        3 => {
            let (x, y) = (gen()?, gen()?);
            ("flat(x + y) = flat(x) + flat(y)", flat(cat(x.clone(), y.clone())), cat(flat(x), flat(y)))
        }
        4 => {
            let x = gen()?;
            ("flat(flat(x)) = flat(x)", flat(flat(x.clone())), flat(x))
        }
        5 => {
            let (x, y) = (gen()?, gen()?);
            ("flat(x | y) = flat(x)", flat(alt(x.clone(), y)), flat(x))
        }
        6 => {
            let x = gen()?;
            ("x | x = x", alt(x.clone(), x.clone()), x)
        }
        7 => {
            let (x, y) = (gen()?, gen()?);
            (
                "(x | y) + t = (x + t) | (y + t)",
                cat(alt(x.clone(), y.clone()), lit("t;")),
                alt(cat(x, lit("t;")), cat(y, lit("t;"))),
            )
        }
        8 => {
            let (x, y) = (gen()?, gen()?);
            (
                "t + (x | y) = (t + x) | (t + y)",
                cat(lit("t:"), alt(x.clone(), y.clone())),
                alt(cat(lit("t:"), x), cat(lit("t:"), y)),
            )
        }
        9 => {
            let (x, y) = (gen()?, gen()?);
            (
                "indent(x + y) = indent(x) + indent(y)",
                ind("--", cat(x.clone(), y.clone())),
                cat(ind("--", x), ind("--", y)),
            )
        }
        10 => {
            let (x, y) = (gen()?, gen()?);
            (
                "indent(x | y) = indent(x) | indent(y)",
                ind("--", alt(x.clone(), y.clone())),
                alt(ind("--", x), ind("--", y)),
            )
        }
        11 => {
            let x = gen()?;
            ("indent(flat(x)) = flat(indent(x))", ind("--", flat(x.clone())), flat(ind("--", x)))
        }
        12 => {
            let (x, y) = (gen()?, gen()?);
            ("style(x + y) = style(x) + style(y)", sty(1, cat(x.clone(), y.clone())), cat(sty(1, x), sty(1, y)))
        }
        13 => {
            let (x, y) = (gen()?, gen()?);
            ("style(x | y) = style(x) | style(y)", sty(1, alt(x.clone(), y.clone())), alt(sty(1, x), sty(1, y)))
        }
        14 => {
            let x = gen()?;
            ("style(flat(x)) = flat(style(x))", sty(1, flat(x.clone())), flat(sty(1, x)))
        }
        15 => {
            let (x, y) = (gen()?, gen()?);
            (
                "flat(c ? x : y) = c ? flat(x) : flat(y)",
                flat(chk(1, Pos::Here, x.clone(), y.clone())),
                chk(1, Pos::Here, flat(x), flat(y)),
            )
        }
        16 => {
            let (x, y, z) = (gen()?, gen()?, gen()?);
            (
                "(c ? x : y) + z = c ? x + z : y + z",
                cat(chk(0, Pos::Here, x.clone(), y.clone()), z.clone()),
                chk(0, Pos::Here, cat(x, z.clone()), cat(y, z)),
            )
        }
        17 => {
            let x = gen()?;
            ("c ? x : x = x", chk(0, Pos::Here, x.clone(), x.clone()), x)
        }
        18 => {
            let x = gen()?;
            ("count(x, x, x) = x", cnt(x.clone(), x.clone(), x.clone()), x)
        }
        19 => {
            let (x, y, z) = (gen()?, gen()?, gen()?);
            (
                "count(x, y, z) + t = count(x + t, y + t, z + t)",
                cat(cnt(x.clone(), y.clone(), z.clone()), lit("t;")),
                cnt(cat(x, lit("t;")), cat(y, lit("t;")), cat(z, lit("t;"))),
            )
        }
        20 => {
            let (x, y, z) = (gen()?, gen()?, gen()?);
            (
                "flat(count(x, y, z)) = count(flat(x), flat(y), flat(z))",
                flat(cnt(x.clone(), y.clone(), z.clone())),
                cnt(flat(x), flat(y), flat(z)),
            )
        }
        _ => unreachable!(),
    })
}

/// Do two notations print the same? Also focused at the end (printing upward).
fn same_print(a: &N, b: &N, kids: usize, widths: &[u16], st: &mut Stats) -> Result<bool, String> {
    let mk = |n: &N| {
        let ks = [t("kid"), Proto::branch(cats(vec![lit("<"), N::Nl, lit(">")]), vec![]).conds(2)];
        Proto::branch(n.clone(), ks[..kids].to_vec()).build(false)
    };
    let (ra, rb) = match (mk(a), mk(b)) {
        (Some(x), Some(y)) => (x, y),
        _ => return Ok(false),
    };
    for &width in widths {
        for target in [Target::Start, Target::End] {
            let (ca, cb) = (Ctx::new(), Ctx::new());
            let x = print_all(refs(&ca, &ra), width, &[], target, None);
            let y = print_all(refs(&cb, &rb), width, &[], target, None);
            st.add("runs", 2);
            st.add("transitions", ca.calls.get() + cb.calls.get());
            let (sx, sy) = (show_out(&x), show_out(&y));
            st.outcome(hash_of(&sx));
            if sx != sy {
                return Err(format!(
                    "at width {}, focus {:?}:\n  {} gives {:?}\n  {} gives {:?}",
                    width, target, show(a), sx, show(b), sy
                ));
            }
        }
    }
    Ok(true)
}

fn u_laws(name: &'static str, gr: Gram, sizes: [usize; 4], kids: &'static [usize], widths: &'static [u16]) -> Universe {
    Universe {
        name: format!("laws-{}-{:?}", name, sizes),
        describe: format!(
            "{} laws, in {} contexts, with every operand over the {} grammar: total operand size at most {} for one-operand laws, {} for two, {} for three; {:?} children; widths {:?}; focused at start and at end",
            N_LAW, N_CONTEXT, name, sizes[1], sizes[2], sizes[3], kids, widths
        ),
        body: Arc::new(move |ch, st| {
            let l = ch.pick(N_LAW);
            let arity = arity(l);
            let mut left = sizes[arity];
            let mut todo = arity;
            let r = law(l, &mut || {
                let s = 1 + ch.pick(left + 1 - todo);
                left -= s;
                todo -= 1;
                gr.gen(ch, s, Cx::default())
            });
            let (name, a, b) = match r {
                Some(x) => x,
                None => return Verdict::Skip,
            };
            let c = ch.pick(N_CONTEXT);
            let k = kids[ch.pick(kids.len())];
            let (ca, cb) = (context(c, a), context(c, b));
            match guarded(|| same_print(&ca, &cb, k, widths, st)) {
                Err(m) if m.contains("harness:") => panic!("{}", m),
                Err(m) => Verdict::Bad(format!("law {}: panic {}\n{}\n{}", name, m, show(&ca), show(&cb))),
                Ok(Ok(true)) => {
                    st.add("states", 1);
                    if st.want_sample {
                        st.samples.push(format!("{}: {} versus {}", name, show(&ca), show(&cb)));
                    }
                    Verdict::Ok
                }
                Ok(Ok(false)) => {
                    st.add("invalid on a side", 1);
                    Verdict::Skip
                }
                Ok(Err(m)) => Verdict::Bad(format!("law {}: {}", name, m)),
            }
        }),
    }
}

const N_OPERAND: usize = 20;
/// A small notation of every kind.
fn operand(k: usize) -> N {
    match k {
        0 => lit("x"),
        1 => N::Nl,
        2 => alt(lit("ab"), N::Nl),
        3 => child(0),
        4 => cat(child(-1), N::Nl),
        5 => cnt(lit("none"), child(0), alt(child(1), N::Nl)),
        6 => fold(child(0), cats(vec![N::Left, alt(lit(","), N::Nl), N::Right])),
        7 => chk(0, Pos::Child(-1), cat(lit("y"), N::Nl), lit("n")),
        8 => inds("|", 1, cat(N::Nl, lit("i"))),
        9 => sty(0, alt(lit("long"), cat(lit("s"), N::Nl))),
        10 => flat(alt(child(0), N::Nl)),
        11 => cat(alt(N::Eol, N::Empty), N::Nl),
        12 => N::Left,
        13 => N::Right,
        14 => lit(""),
        15 => N::Mark,
        16 => cat(lit("e"), N::Eol),
        17 => alt(cnt(lit("none"), lit("one"), lit("many")), lit("z")),
        18 => alt(fold(child(0), cat(N::Left, N::Right)), cat(lit("f"), N::Nl)),
        _ => alt(chk(0, Pos::Child(0), lit("yes"), cat(lit("no"), N::Nl)), lit("?")),
    }
}

/// Laws between operands of every kind, within stacks of wrappers of every kind.
fn u_nested_laws(depths: [usize; 4], kids: &'static [usize], widths: &'static [u16]) -> Universe {
    Universe {
        name: format!("nested-laws{:?}", depths),
        describe: format!(
            "{} laws, with any of {} operands of every kind of notation, between two texts within every stack of {} (laws with one operand), {} (two) and {} (three) wrappers of {} kinds; {:?} children; widths {:?}; focused at start and at end",
            N_LAW, N_OPERAND, depths[1], depths[2], depths[3], N_WRAP, kids, widths
        ),
        body: Arc::new(move |ch, st| {
            let l = ch.pick(N_LAW);
            let (name, mut a, mut b) = law(l, &mut || Some(operand(ch.pick(N_OPERAND)))).unwrap();
            for _ in 0..depths[arity(l)] {
                let k = ch.pick(N_WRAP);
                (a, b) = (wrapper(k, a), wrapper(k, b));
            }
            let k = kids[ch.pick(kids.len())];
            let around = |n: N| cats(vec![lit("("), n, lit(")")]);
            (a, b) = (around(a), around(b));
            match guarded(|| same_print(&a, &b, k, widths, st)) {
                Err(m) if m.contains("harness:") => panic!("{}", m),
                Err(m) => Verdict::Bad(format!("law {}: panic {}\n{}\n{}", name, m, show(&a), show(&b))),
                Ok(Ok(true)) => {
                    st.add("states", 1);
                    if st.want_sample {
                        st.samples.push(format!("{}: {} versus {}", name, show(&a), show(&b)));
                    }
                    Verdict::Ok
                }
                Ok(Ok(false)) => {
                    st.add("invalid on a side", 1);
                    Verdict::Skip
                }
                Ok(Err(m)) => Verdict::Bad(format!("law {}: {}", name, m)),
            }
        }),
    }
}

/// Operators and constructor functions denote the documented notations.
fn u_constructors(max: usize) -> Universe {
    Universe {
        name: format!("constructors<={}", max),
        describe: format!(
            "the operators + | ^ >> and every constructor function, on every pair of raw notations of total size at most {}",
            max
        ),
        body: Arc::new(move |ch, st| {
            let gr = RAW;
            let s = 1 + ch.pick(max - 1);
            let s2 = 1 + ch.pick(max - s);
            let (x, y) = match (gr.gen(ch, s, Cx::default()), gr.gen(ch, s2, Cx::default())) {
                (Some(x), Some(y)) => (x, y),
                _ => return Verdict::Skip,
            };
            type R = Notation<L, C>;
            let (a, b): (R, R) = (to_real(&x), to_real(&y));
            let bx = |n: &R| Box::new(n.clone());
            let mut checks: Vec<(String, R, R)> = vec![
                ("x + y".into(), a.clone() + b.clone(), Notation::Concat(bx(&a), bx(&b))),
                ("x | y".into(), a.clone() | b.clone(), Notation::Choice(bx(&a), bx(&b))),
                (
                    "x ^ y".into(),
                    a.clone() ^ b.clone(),
                    Notation::Concat(
                        Box::new(Notation::Concat(bx(&a), Box::new(Notation::Newline))),
                        bx(&b),
                    ),
                ),
                ("style".into(), nc::style(2, a.clone()), Notation::Style(2, bx(&a))),
                ("flat".into(), nc::flat(a.clone()), Notation::Flat(bx(&a))),
                ("indent".into(), nc::indent("é ", None, a.clone()), Notation::Indent("é ".into(), None, bx(&a))),
                ("indent".into(), nc::indent("", Some(1), a.clone()), Notation::Indent("".into(), Some(1), bx(&a))),
                (
                    "count".into(),
                    nc::count(nc::Count { zero: a.clone(), one: b.clone(), many: Notation::Empty }),
                    Notation::Count { zero: bx(&a), one: bx(&b), many: Box::new(Notation::Empty) },
                ),
                (
                    "count".into(),
                    nc::count(nc::Count { zero: Notation::Newline, one: a.clone(), many: b.clone() }),
                    Notation::Count { zero: Box::new(Notation::Newline), one: bx(&a), many: bx(&b) },
                ),
                (
                    "fold".into(),
                    nc::fold(nc::Fold { first: a.clone(), join: b.clone() }),
                    Notation::Fold { first: bx(&a), join: bx(&b) },
                ),
                ("empty".into(), nc::empty(), Notation::Empty),
                ("nl".into(), nc::nl(), Notation::Newline),
                ("eol".into(), nc::eol(), Notation::EndOfLine),
                ("mark".into(), nc::mark(), Notation::FocusMark),
                ("text".into(), nc::text(), Notation::Text),
                ("lit".into(), nc::lit("x y"), Notation::Literal("x y".into())),
                ("lit".into(), nc::lit(""), Notation::Literal("".into())),
                ("left".into(), nc::left(), Notation::Left),
                ("right".into(), nc::right(), Notation::Right),
            ];
            for i in [0isize, 1, -1, 7, isize::MIN, isize::MAX] {
                checks.push((format!("child({})", i), nc::child(i), Notation::Child(i)));
            }
            for p in [Pos::Here, Pos::Child(-2), Pos::Left, Pos::Right] {
                checks.push((
                    format!("check at {:?}", p),
                    nc::check(3, to_pos(&p), a.clone(), b.clone()),
                    Notation::Check(3, to_pos(&p), bx(&a), bx(&b)),
                ));
            }
            for i in [0u16, 1, 4, 9, 255, 256, 300, 1000, 32768, 65535] {
                if i > 300 && s + s2 > 2 {
                    continue;
                }
                checks.push((
                    format!("{} >> x", i),
                    i >> a.clone(),
                    Notation::Indent(
                        " ".repeat(i as usize),
                        None,
                        Box::new(Notation::Concat(Box::new(Notation::Newline), bx(&a))),
                    ),
                ));
            }
            st.add("states", 1);
            for (what, got, want) in &checks {
                st.add("transitions", 1);
                st.add("runs", 1);
                let eq = same(got, want)
                    // ^ is documented up to the grouping of concatenation
                    || (what == "x ^ y"
                        && same(got, &Notation::Concat(bx(&a), Box::new(Notation::Concat(Box::new(Notation::Newline), bx(&b))))));
                if !eq {
                    return Verdict::Bad(format!("{} is {:?}, documented as {:?}", what, got, want));
                }
            }
            st.outcome(hash_of(&(x, y)));
            Verdict::Ok
        }),
    }
}

fn c22(tier: Tier) -> Vec<Universe> {
    const W: &[u16] = &[0, 2, 4, 7, 12];
    const WT: &[u16] = &[0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16];
    match tier {
        Tier::Quick => vec![
            u_laws("operand", OPERAND, [0, 5, 5, 5], &[0], W),
            u_laws("operand-doc", OPERAND_DOC, [0, 5, 5, 5], &[1, 2], &[2, 5, 9]),
            u_nested_laws([0, 2, 1, 1], &[2], &[0, 6]),
            u_constructors(5),
        ],
        Tier::Thorough => vec![
            u_laws("operand", OPERAND, [0, 6, 6, 6], &[0], W),
            u_laws("operand-w", OPERAND, [0, 5, 5, 5], &[0], WT),
            u_laws("operand-doc", OPERAND_DOC, [0, 5, 5, 5], &[1, 2], &[2, 5, 9]),
            u_nested_laws([0, 3, 2, 1], &[1, 2], &[0, 4, 8]),
            u_constructors(6),
        ],
    }
}

pub fn props() -> Vec<Prop> {
    fn p(id: &'static str, universes: fn(Tier) -> Vec<Universe>) -> Prop {
        Prop { id, level: "model_checking", universes, assumptions: &[] }
    }
    vec![p("C10", c10), p("C18", c18), p("C19", c19), p("C22", c22)]
}
