//! Enumerable universes of notations and documents.

use crate::explore::Chooser;
use crate::model::*;

pub type U1 = fn(N) -> N;
pub type U2 = fn(N, N) -> N;

/// A grammar of notations.
#[derive(Clone, Copy)]
pub struct Gram {
    pub leaves: &'static [fn() -> N],
    /// additional leaves inside a Fold's join
    pub join_leaves: &'static [fn() -> N],
    pub unary: &'static [U1],
    pub binary: &'static [U2],
    /// additional binary operators inside a Fold's join
    pub join_binary: &'static [U2],
    pub fold: bool,
    pub count: bool,
    /// nest concatenations to the right only
    pub right_cat: bool,
    /// enforce the nesting rules of Fold/Count/Left/Right (off: raw notations)
    pub scoped: bool,
}

#[derive(Clone, Copy, Default)]
pub struct Cx {
    pub fold: bool,
    pub join: bool,
    pub count: bool,
    pub no_cat: bool,
}

impl Gram {
    /// Is there a notation of this size? (dead ends are reported as None by gen)
    pub fn gen(&self, ch: &mut Chooser, size: usize, cx: Cx) -> Option<N> {
        let joinish = cx.join || !self.scoped;
        if size == 0 {
            return None;
        }
        if size == 1 {
            let n = self.leaves.len() + if joinish { self.join_leaves.len() } else { 0 };
            if n == 0 {
                return None;
            }
            let k = ch.pick(n);
            return Some(if k < self.leaves.len() {
                self.leaves[k]()
            } else {
                self.join_leaves[k - self.leaves.len()]()
            });
        }
        let inner = Cx {
            no_cat: false,
            ..cx
        };
        let n1 = self.unary.len();
        let nb = self.binary.len();
        let nj = if joinish { self.join_binary.len() } else { 0 };
        let n2 = if size >= 3 { nb + nj } else { 0 };
        let nf = if self.fold && size >= 3 && !(self.scoped && cx.fold) {
            1
        } else {
            0
        };
        let nc = if self.count && size >= 4 && !(self.scoped && cx.count) {
            1
        } else {
            0
        };
        let total = n1 + n2 + nf + nc;
        if total == 0 {
            return None;
        }
        let k = ch.pick(total);
        if k < n1 {
            let a = self.gen(ch, size - 1, inner)?;
            return Some(self.unary[k](a));
        }
        if k < n1 + n2 {
            let k = k - n1;
            let op = if k < nb {
                self.binary[k]
            } else {
                self.join_binary[k - nb]
            };
            let is_cat = matches!(op(N::Empty, N::Empty), N::Cat(..));
            if is_cat && cx.no_cat {
                return None;
            }
            let left = 1 + ch.pick(size - 2);
            let a = self.gen(
                ch,
                left,
                Cx {
                    no_cat: is_cat && self.right_cat,
                    ..cx
                },
            )?;
            let b = self.gen(ch, size - 1 - left, inner)?;
            return Some(op(a, b));
        }
        if k < n1 + n2 + nf {
            let left = 1 + ch.pick(size - 2);
            let a = self.gen(
                ch,
                left,
                Cx {
                    fold: true,
                    join: false,
                    ..inner
                },
            )?;
            let b = self.gen(
                ch,
                size - 1 - left,
                Cx {
                    fold: true,
                    join: true,
                    ..inner
                },
            )?;
            return Some(fold(a, b));
        }
        let x = 1 + ch.pick(size - 3);
        let y = 1 + ch.pick(size - 2 - x);
        let z = size - 1 - x - y;
        let cxc = Cx {
            count: true,
            ..inner
        };
        let a = self.gen(ch, x, cxc)?;
        let b = self.gen(ch, y, cxc)?;
        let c = self.gen(ch, z, cxc)?;
        Some(cnt(a, b, c))
    }

    /// Any size from 1 to max.
    pub fn gen_upto(&self, ch: &mut Chooser, max: usize) -> Option<N> {
        let s = 1 + ch.pick(max);
        self.gen(ch, s, Cx::default())
    }
}

pub mod g {
    use super::*;
    pub fn emp() -> N {
        N::Empty
    }
    pub fn nl() -> N {
        N::Nl
    }
    pub fn eol() -> N {
        N::Eol
    }
    pub fn la() -> N {
        lit("a")
    }
    pub fn lbb() -> N {
        lit("bb")
    }
    pub fn lcd() -> N {
        lit("cde")
    }
    pub fn lw() -> N {
        lit("信")
    }
    pub fn le() -> N {
        lit("")
    }
    pub fn text() -> N {
        N::Text
    }
    pub fn mark() -> N {
        N::Mark
    }
    pub fn c0() -> N {
        child(0)
    }
    pub fn c1() -> N {
        child(1)
    }
    pub fn c2() -> N {
        child(2)
    }
    pub fn cm1() -> N {
        child(-1)
    }
    pub fn cm2() -> N {
        child(-2)
    }
    pub fn cm3() -> N {
        child(-3)
    }
    pub fn left() -> N {
        N::Left
    }
    pub fn right() -> N {
        N::Right
    }
    pub fn flat(a: N) -> N {
        super::flat(a)
    }
    pub fn ind_gt(a: N) -> N {
        ind("> ", a)
    }
    pub fn ind_1(a: N) -> N {
        ind(" ", a)
    }
    pub fn ind_w(a: N) -> N {
        ind("宽", a)
    }
    pub fn ind_s1(a: N) -> N {
        inds("|", 1, a)
    }
    pub fn sty0(a: N) -> N {
        sty(0, a)
    }
    pub fn sty1(a: N) -> N {
        sty(1, a)
    }
    pub fn cat(a: N, b: N) -> N {
        super::cat(a, b)
    }
    pub fn alt(a: N, b: N) -> N {
        super::alt(a, b)
    }
    pub fn chk_here(a: N, b: N) -> N {
        chk(0, Pos::Here, a, b)
    }
    pub fn chk_c0(a: N, b: N) -> N {
        chk(1, Pos::Child(0), a, b)
    }
    pub fn chk_c1(a: N, b: N) -> N {
        chk(0, Pos::Child(1), a, b)
    }
    pub fn chk_m1(a: N, b: N) -> N {
        chk(0, Pos::Child(-1), a, b)
    }
    pub fn chk_m2(a: N, b: N) -> N {
        chk(1, Pos::Child(-2), a, b)
    }
    pub fn chk0_c0(a: N, b: N) -> N {
        chk(0, Pos::Child(0), a, b)
    }
    pub fn chk0_c2(a: N, b: N) -> N {
        chk(0, Pos::Child(2), a, b)
    }
    pub fn chk0_m2(a: N, b: N) -> N {
        chk(0, Pos::Child(-2), a, b)
    }
    pub fn chk0_m3(a: N, b: N) -> N {
        chk(0, Pos::Child(-3), a, b)
    }
    pub fn chk0_right(a: N, b: N) -> N {
        chk(0, Pos::Right, a, b)
    }
    pub fn lc() -> N {
        lit(",")
    }
    pub fn chk0_left(a: N, b: N) -> N {
        chk(0, Pos::Left, a, b)
    }
    pub fn chk_left(a: N, b: N) -> N {
        chk(0, Pos::Left, a, b)
    }
    pub fn chk_right(a: N, b: N) -> N {
        chk(1, Pos::Right, a, b)
    }
}
#[allow(unused_imports)]
use g::{c0, c1, chk_c0, chk_left, chk_right, cm1, emp, eol, ind_1, ind_gt, la, lbb, lc, lcd, lw, nl};

/// The layout operators only.
pub const CORE: Gram = Gram {
    leaves: &[la, nl, eol, emp, lbb, lw],
    join_leaves: &[],
    unary: &[g::flat, ind_gt],
    binary: &[g::cat, g::alt],
    join_binary: &[],
    fold: false,
    count: false,
    right_cat: false,
    scoped: true,
};
/// Fewer symbols, for larger sizes.
pub const CORE_LEAN: Gram = Gram {
    leaves: &[la, nl, eol, lcd],
    unary: &[g::flat, ind_gt],
    right_cat: true,
    ..CORE
};
/// No end-of-line, no flat: deep interplay of choices, newlines and indentation.
pub const CORE_CHOICE: Gram = Gram {
    leaves: &[la, nl, lbb],
    unary: &[ind_1],
    right_cat: true,
    ..CORE
};

/// Root notations over a branch node.
pub const BRANCH: Gram = Gram {
    leaves: &[c0, cm1, la, nl],
    join_leaves: &[g::left, g::right],
    unary: &[g::flat, ind_gt],
    binary: &[g::cat, g::alt, chk_c0],
    join_binary: &[chk_left, chk_right],
    fold: true,
    count: true,
    right_cat: true,
    scoped: true,
};

/// The join of a fold.
pub const JOIN: Gram = Gram {
    leaves: &[lc, nl],
    unary: &[g::flat, ind_gt],
    binary: &[g::cat, g::alt],
    join_binary: &[g::chk0_left, g::chk0_right],
    fold: false,
    count: false,
    ..BRANCH
};
/// The same with styles.
pub const JOIN_STY: Gram = Gram {
    leaves: &[lc],
    unary: &[g::flat, g::ind_s1, g::sty0],
    binary: &[g::cat, g::alt],
    join_binary: &[g::chk0_right],
    ..JOIN
};

/// Every way to refer to a child.
pub const INDEX: Gram = Gram {
    leaves: &[c0, g::c1, g::c2, cm1, g::cm2, g::cm3, la],
    join_leaves: &[g::left, g::right],
    unary: &[],
    binary: &[g::cat, g::chk0_c0, g::chk_c1, g::chk0_c2, g::chk_m1, g::chk0_m2, g::chk0_m3, g::chk_here],
    join_binary: &[chk_left, g::chk0_right],
    fold: true,
    count: false,
    right_cat: true,
    scoped: true,
};

/// For a node and its only child, generated together.
pub const PAIR_ROOT: Gram = Gram {
    leaves: &[c0, la, nl, eol],
    unary: &[ind_gt],
    right_cat: true,
    ..CORE
};
pub const PAIR_KID: Gram = Gram {
    leaves: &[lbb, nl, eol, g::mark],
    unary: &[g::flat],
    right_cat: true,
    ..CORE
};
/// The notation of a text node.
pub const TEXTY: Gram = Gram {
    leaves: &[g::text, la, nl, eol, g::mark],
    unary: &[g::flat, ind_gt],
    right_cat: true,
    ..CORE
};
/// ... with fewer symbols, for larger sizes
pub const TEXTY_LEAN: Gram = Gram {
    leaves: &[g::text, nl, g::mark],
    unary: &[],
    right_cat: true,
    ..CORE
};
/// A node with two children, and its children.
pub const TRIO_ROOT: Gram = Gram {
    leaves: &[c0, c1, nl],
    unary: &[],
    right_cat: true,
    ..CORE
};
pub const TRIO_KID: Gram = Gram {
    leaves: &[g::text, nl, eol, g::mark],
    unary: &[],
    right_cat: true,
    ..CORE
};

// ---- documents ------------------------------------------------------------------------------

pub fn t(s: S) -> Proto {
    Proto::text(N::Text, s)
}

pub const N_LEAF: usize = 12;
/// Small child documents with different shapes.
pub fn leaf(k: usize) -> Proto {
    match k {
        0 => t("x"),
        1 => t("yz").conds(0b01),
        2 => Proto::branch(cats(vec![lit("("), N::Nl, lit(")")]), vec![]),
        3 => Proto::branch(cat(lit("//"), N::Eol), vec![]).conds(0b11),
        4 => Proto::text(alt(cats(vec![lit("["), N::Text, lit("]")]), N::Text), "ab").conds(0b10),
        5 => Proto::branch(
            alt(
                cats(vec![lit("<"), child(0), lit(">")]),
                cats(vec![lit("<"), ind("  ", cat(N::Nl, child(0))), N::Nl, lit(">")]),
            ),
            vec![t("k")],
        ),
        6 => t(""),
        7 => Proto::branch(cats(vec![lit("m"), N::Mark, lit("n")]), vec![]).conds(0b01),
        8 => t("信"),
        9 => Proto::branch(N::Empty, vec![]).conds(0b10),
        10 => Proto::branch(cats(vec![child(0), N::Nl, N::Mark, child(1)]), vec![t("p"), t("qr")]),
        11 => Proto::text(cats(vec![lit("'"), N::Text, lit("'"), N::Eol]), "c").conds(0b11),
        _ => unreachable!(),
    }
}
pub fn gen_leaf(ch: &mut Chooser, n: usize) -> Proto {
    leaf(ch.pick(n))
}

pub const N_TEMPLATE: usize = 14;
/// Realistic branch notations for any number of children.
pub fn template(k: usize) -> N {
    let open = || sty(0, lit("["));
    let close = || sty(1, lit("]"));
    match k {
        // JSON-like array
        0 => {
            let single = cats(vec![
                open(),
                fold(flat(child(0)), cats(vec![N::Left, lit(","), flat(N::Right)])),
                close(),
            ]);
            let multi = cats(vec![
                open(),
                ind(
                    "  ",
                    cat(
                        N::Nl,
                        fold(
                            child(0),
                            cats(vec![
                                N::Left,
                                chk(0, Pos::Left, N::Empty, lit(",")),
                                N::Nl,
                                N::Right,
                            ]),
                        ),
                    ),
                ),
                N::Nl,
                close(),
            ]);
            let a = alt(single, multi);
            cnt(cats(vec![open(), N::Mark, close()]), a.clone(), a)
        }
        // flow wrap
        1 => fold(
            child(0),
            cats(vec![N::Left, alt(lit(" "), N::Nl), N::Right]),
        ),
        // one per line
        2 => fold(child(0), cats(vec![N::Left, N::Nl, N::Right])),
        // juxtaposed
        3 => cat(fold(child(0), cat(N::Left, N::Right)), N::Mark),
        // prefix with commented flow wrap, ended by eol
        4 => sty(
            2,
            cats(vec![
                lit("# "),
                inds(
                    "# ",
                    1,
                    fold(
                        child(0),
                        cats(vec![N::Left, alt(lit(" "), N::Nl), N::Right]),
                    ),
                ),
                N::Eol,
            ]),
        ),
        // Left under an indent: every further line of the accumulated part is indented once more
        5 => fold(
            child(0),
            cats(vec![ind("|", N::Left), N::Nl, flat(N::Right)]),
        ),
        // reversed ends
        6 => cnt(
            lit("none"),
            cats(vec![lit("one:"), child(0)]),
            cats(vec![child(-1), alt(lit(" "), N::Nl), ind("    ", child(0))]),
        ),
        // call with trailing text after a choice
        7 => cats(vec![
            lit("f("),
            cnt(
                N::Empty,
                alt(child(0), ind("  ", cats(vec![N::Nl, child(0)]))),
                alt(
                    fold(flat(child(0)), cats(vec![N::Left, lit(" "), flat(N::Right)])),
                    ind(
                        "  ",
                        cats(vec![N::Nl, fold(child(0), cats(vec![N::Left, N::Nl, N::Right]))]),
                    ),
                ),
            ),
            lit(")"),
            N::Mark,
            lit(";"),
        ]),
        // choice between joining styles inside the join
        8 => fold(
            sty(0, child(0)),
            alt(
                cats(vec![N::Left, lit("+"), flat(N::Right)]),
                cats(vec![N::Left, N::Nl, sty(1, ind(". ", N::Right))]),
            ),
        ),
        // Right before Left
        9 => fold(child(0), cats(vec![N::Right, lit("<"), N::Left])),
        // nothing of the children
        10 => cats(vec![lit("hidden"), N::Nl]),
        // checks of both neighbours
        11 => fold(
            child(0),
            cats(vec![
                N::Left,
                chk(
                    0,
                    Pos::Left,
                    N::Nl,
                    chk(1, Pos::Right, lit("&"), alt(lit("; "), N::Nl)),
                ),
                N::Right,
            ]),
        ),
        // doubled child
        12 => cnt(
            N::Nl,
            cats(vec![child(0), lit("="), child(0)]),
            cats(vec![child(0), lit("="), child(-1), N::Nl, child(0)]),
        ),
        // drops the accumulated part
        13 => fold(child(0), alt(N::Right, N::Left)),
        _ => unreachable!(),
    }
}

/// Documents of depth 2: a template over leaves.
pub fn gen_doc2(ch: &mut Chooser, maxk: usize, nleaf: usize) -> Proto {
    let t = ch.pick(N_TEMPLATE);
    let k = ch.pick(maxk + 1);
    let kids = (0..k).map(|_| gen_leaf(ch, nleaf)).collect();
    Proto::branch(template(t), kids)
}

/// Documents of depth 3: a template over templates over leaves.
pub fn gen_doc3(ch: &mut Chooser, ts: &[usize], leaves: &[usize], k1: usize, k2: usize) -> Proto {
    let t1 = ts[ch.pick(ts.len())];
    let k = 1 + ch.pick(k1);
    let mut kids = vec![];
    for _ in 0..k {
        let what = ch.pick(ts.len() + leaves.len());
        if what < ts.len() {
            let m = 1 + ch.pick(k2);
            let gk = (0..m).map(|_| leaf(leaves[ch.pick(leaves.len())])).collect();
            kids.push(Proto::branch(template(ts[what]), gk));
        } else {
            kids.push(leaf(leaves[what - ts.len()]));
        }
    }
    Proto::branch(template(t1), kids)
}

/// A branch root with a generated notation over `k` palette children.
pub fn gen_rooted(ch: &mut Chooser, gr: &Gram, size: usize, ks: &[usize], nleaf: usize) -> Option<Proto> {
    let n = gr.gen(ch, size, Cx::default())?;
    let k = ks[ch.pick(ks.len())];
    let kids = (0..k).map(|_| gen_leaf(ch, nleaf)).collect();
    Some(Proto::branch(n, kids))
}

pub const N_WRAP: usize = 20;
/// A wrapper of every kind there is.
pub fn wrapper(k: usize, n: N) -> N {
    match k {
        0 => flat(n),
        1 => alt(n, lit("z")),
        2 => alt(n, cats(vec![lit("z"), N::Nl])),
        3 => alt(lit("wide!"), n),
        4 => cat(lit("a"), n),
        5 => cat(n, lit("b")),
        6 => cat(N::Nl, n),
        7 => cat(n, N::Nl),
        8 => ind("  ", n),
        9 => inds("|", 1, n),
        10 => sty(0, n),
        11 => chk(0, Pos::Here, lit("no"), n),
        12 => chk(0, Pos::Child(-1), n, lit("no")),
        13 => cnt(n, lit("one"), child(1)),
        14 => cnt(lit("0"), n, lit("2+")),
        15 => cnt(N::Mark, child(0), n),
        16 => fold(n, cat(N::Left, N::Right)),
        17 => fold(child(0), n),
        18 => chk(0, Pos::Right, N::Left, n),
        _ => cat(N::Left, n),
    }
}

/// Every character there is, between "a" and "b" (interned once).
pub struct AllChars {
    text: String,
    at: Vec<(u32, char)>,
}
pub const CHAR_PAGE: usize = 2048;
impl AllChars {
    pub fn get() -> &'static AllChars {
        static ALL: std::sync::OnceLock<AllChars> = std::sync::OnceLock::new();
        ALL.get_or_init(|| {
            let mut text = String::new();
            let mut at = vec![];
            for c in '\0'..=char::MAX {
                at.push((text.len() as u32, c));
                text.push('a');
                text.push(c);
                text.push('b');
            }
            AllChars { text, at }
        })
    }
    /// Choose one: the character, and its text.
    pub fn pick(&'static self, ch: &mut Chooser) -> (char, S) {
        let page = ch.pick(self.at.len().div_ceil(CHAR_PAGE)) * CHAR_PAGE;
        let i = page + ch.pick(CHAR_PAGE.min(self.at.len() - page));
        let (from, c) = self.at[i];
        let from = from as usize;
        (c, &self.text[from..from + 2 + c.len_utf8()])
    }
}
