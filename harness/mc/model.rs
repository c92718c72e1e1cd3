//! The reference model: what a document *means*, written from the documentation of `Notation`,
//! independently of the crate's printer (no blocks, no chunks, no peephole, no lazy evaluation).
//!
//! Phase 1 (`elab`) resolves a whole document into one tree of the five layout primitives; phase 2
//! (`lay_out`) is the textbook greedy layout of that tree, which also records at which text position
//! every document node starts and ends and where its marks and text are.

use partial_pretty_printer as ppp;
use ppp::{CheckPos, Notation, ValidNotation};
use std::rc::Rc;

pub type L = u8;
pub type C = u8;

/// Style tokens, combined by concatenation (the free monoid): outermost token first. Records
/// exactly which styles were combined, and in which order.
/// Up to 21 tokens are packed; longer ones are kept as a polynomial hash, which also respects
/// concatenation.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Sty {
    len: u32,
    bits: u128,
}
const STY_P: u128 = (1 << 61) - 1;
const STY_B: u128 = 0x1234_5678_9ABC_DE1;
impl Sty {
    pub const NONE: Sty = Sty { len: 0, bits: 0 };
    pub fn tok(t: u8) -> Sty {
        assert!(t < 64, "harness: style token");
        Sty {
            len: 1,
            bits: t as u128,
        }
    }
    fn hash(&self) -> u128 {
        if self.len > 21 {
            return self.bits;
        }
        let mut h = 0;
        for i in (0..self.len).rev() {
            h = (h * STY_B + ((self.bits >> (6 * i)) & 63) + 1) % STY_P;
        }
        h
    }
    pub fn cat(a: &Sty, b: &Sty) -> Sty {
        let len = a.len + b.len;
        if len <= 21 {
            return Sty {
                len,
                bits: (a.bits << (6 * b.len)) | b.bits,
            };
        }
        let (mut pow, mut base, mut n) = (1, STY_B, b.len);
        while n > 0 {
            if n & 1 == 1 {
                pow = pow * base % STY_P;
            }
            base = base * base % STY_P;
            n >>= 1;
        }
        Sty {
            len,
            bits: (a.hash() * pow + b.hash()) % STY_P,
        }
    }
}
impl std::fmt::Debug for Sty {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.len > 21 {
            return write!(f, "<{} tokens, {:x}>", self.len, self.bits);
        }
        write!(f, "<")?;
        for i in (0..self.len).rev() {
            let t = (self.bits >> (6 * i)) & 63;
            write!(f, "{}{}", t, if i > 0 { "." } else { "" })?;
        }
        write!(f, ">")
    }
}
impl ppp::Style for Sty {
    fn combine(outer: &Sty, inner: &Sty) -> Sty {
        Sty::cat(outer, inner)
    }
}

pub type S = &'static str;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pos {
    Here,
    Child(isize),
    Left,
    Right,
}

/// A notation, as the model sees it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Empty,
    Nl,
    Eol,
    Lit(S),
    Text,
    Flat(Rc<N>),
    Indent(S, Option<L>, Rc<N>),
    Cat(Rc<N>, Rc<N>),
    Alt(Rc<N>, Rc<N>),
    Check(C, Pos, Rc<N>, Rc<N>),
    Child(isize),
    Style(L, Rc<N>),
    Mark,
    Count(Rc<N>, Rc<N>, Rc<N>),
    Fold(Rc<N>, Rc<N>),
    Left,
    Right,
}

pub fn lit(s: S) -> N {
    N::Lit(s)
}
pub fn cat(a: N, b: N) -> N {
    N::Cat(Rc::new(a), Rc::new(b))
}
pub fn cats(v: Vec<N>) -> N {
    let mut it = v.into_iter();
    let first = it.next().unwrap();
    it.fold(first, cat)
}
pub fn alt(a: N, b: N) -> N {
    N::Alt(Rc::new(a), Rc::new(b))
}
pub fn flat(a: N) -> N {
    N::Flat(Rc::new(a))
}
pub fn ind(s: S, a: N) -> N {
    N::Indent(s, None, Rc::new(a))
}
pub fn inds(s: S, l: L, a: N) -> N {
    N::Indent(s, Some(l), Rc::new(a))
}
pub fn sty(l: L, a: N) -> N {
    N::Style(l, Rc::new(a))
}
pub fn chk(c: C, p: Pos, a: N, b: N) -> N {
    N::Check(c, p, Rc::new(a), Rc::new(b))
}
pub fn cnt(z: N, o: N, m: N) -> N {
    N::Count(Rc::new(z), Rc::new(o), Rc::new(m))
}
pub fn fold(f: N, j: N) -> N {
    N::Fold(Rc::new(f), Rc::new(j))
}
pub fn child(i: isize) -> N {
    N::Child(i)
}

pub fn to_real(n: &N) -> Notation<L, C> {
    fn b(n: &N) -> Box<Notation<L, C>> {
        Box::new(to_real(n))
    }
    match n {
        N::Empty => Notation::Empty,
        N::Nl => Notation::Newline,
        N::Eol => Notation::EndOfLine,
        N::Lit(s) => Notation::Literal(s.to_string()),
        N::Text => Notation::Text,
        N::Flat(a) => Notation::Flat(b(a)),
        N::Indent(s, l, a) => Notation::Indent(s.to_string(), *l, b(a)),
        N::Cat(x, y) => Notation::Concat(b(x), b(y)),
        N::Alt(x, y) => Notation::Choice(b(x), b(y)),
        N::Check(c, p, x, y) => Notation::Check(*c, to_pos(p), b(x), b(y)),
        N::Child(i) => Notation::Child(*i),
        N::Style(l, a) => Notation::Style(*l, b(a)),
        N::Mark => Notation::FocusMark,
        N::Count(z, o, m) => Notation::Count {
            zero: b(z),
            one: b(o),
            many: b(m),
        },
        N::Fold(x, y) => Notation::Fold {
            first: b(x),
            join: b(y),
        },
        N::Left => Notation::Left,
        N::Right => Notation::Right,
    }
}

pub fn to_pos(p: &Pos) -> CheckPos {
    match p {
        Pos::Here => CheckPos::Here,
        Pos::Child(i) => CheckPos::Child(*i),
        Pos::Left => CheckPos::LeftChild,
        Pos::Right => CheckPos::RightChild,
    }
}

/// Rust source text of a notation, for reports and for replaying by hand.
pub fn show(n: &N) -> String {
    match n {
        N::Empty => "empty()".into(),
        N::Nl => "nl()".into(),
        N::Eol => "eol()".into(),
        N::Lit(s) => {
            if s.len() > 60 {
                format!("lit(<{} bytes>)", s.len())
            } else {
                format!("lit({:?})", s)
            }
        }
        N::Text => "text()".into(),
        N::Flat(a) => format!("flat({})", show(a)),
        N::Indent(s, l, a) => {
            if s.len() > 60 {
                format!("indent(<{} bytes>, {:?}, {})", s.len(), l, show(a))
            } else {
                format!("indent({:?}, {:?}, {})", s, l, show(a))
            }
        }
        N::Cat(a, b) => format!("({} + {})", show(a), show(b)),
        N::Alt(a, b) => format!("({} | {})", show(a), show(b)),
        N::Check(c, p, a, b) => format!("check({}, {:?}, {}, {})", c, p, show(a), show(b)),
        N::Child(i) => format!("child({})", i),
        N::Style(l, a) => format!("style({}, {})", l, show(a)),
        N::Mark => "mark()".into(),
        N::Count(a, b, c) => format!("count({}, {}, {})", show(a), show(b), show(c)),
        N::Fold(a, b) => format!("fold(first: {}, join: {})", show(a), show(b)),
        N::Left => "left()".into(),
        N::Right => "right()".into(),
    }
}

pub const NLABELS: usize = 3;

/// A document node.
pub struct Node {
    pub id: u32,
    /// `Some` for a text node.
    pub text: Option<S>,
    pub children: Vec<Node>,
    pub n: Rc<N>,
    pub valid: ValidNotation<L, C>,
    pub node_style: Sty,
    pub labels: [Sty; NLABELS],
    /// bit c: does condition c hold here
    pub conds: u8,
    /// Counted separately by the work meter.
    pub far: bool,
}

impl Node {
    pub fn num_children(&self) -> Option<usize> {
        if self.text.is_some() {
            None
        } else {
            Some(self.children.len())
        }
    }
    pub fn cond(&self, c: C) -> bool {
        self.conds & (1 << c) != 0
    }
}

/// A document under construction.
#[derive(Clone, Debug)]
pub struct Proto {
    pub text: Option<S>,
    pub children: Vec<Proto>,
    pub n: Rc<N>,
    pub conds: u8,
    pub far: bool,
}
impl Proto {
    pub fn text(n: N, s: S) -> Proto {
        Proto {
            text: Some(s),
            children: vec![],
            n: Rc::new(n),
            conds: 0,
            far: false,
        }
    }
    pub fn branch(n: N, children: Vec<Proto>) -> Proto {
        Proto {
            text: None,
            children,
            n: Rc::new(n),
            conds: 0,
            far: false,
        }
    }
    pub fn conds(mut self, c: u8) -> Proto {
        self.conds = c;
        self
    }
    /// Validate all notations and number the nodes. `None` if some notation is invalid.
    /// `cheat`: accept notations that validation rejects.
    pub fn build(&self, cheat: bool) -> Option<Node> {
        let mut next = 0u32;
        self.build_rec(cheat, &mut next)
    }
    fn build_rec(&self, cheat: bool, next: &mut u32) -> Option<Node> {
        let real = to_real(&self.n);
        let valid = if cheat {
            real.cheat_validation_for_testing_only()
        } else {
            real.validate().ok()?
        };
        let k = *next;
        *next += 1;
        let t = |j: u32| Sty::tok(((1 + 4 * k + j) % 63) as u8 + 1);
        let mut children = Vec::with_capacity(self.children.len());
        for c in &self.children {
            children.push(c.build_rec(cheat, next)?);
        }
        Some(Node {
            // ids are opaque: neither dense nor ordered
            id: (k.wrapping_mul(2654435761)) ^ 0x5bd1e995,
            text: self.text,
            children,
            n: self.n.clone(),
            valid,
            node_style: if self.far { Sty::NONE } else { t(0) },
            labels: [t(1), t(2), t(3)],
            conds: self.conds,
            far: self.far,
        })
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_rec(0, &mut s);
        s
    }
    fn show_rec(&self, d: usize, out: &mut String) {
        out.push_str(&"  ".repeat(d));
        match &self.text {
            Some(t) if t.len() > 60 => out.push_str(&format!("text <{} bytes>", t.len())),
            Some(t) => out.push_str(&format!("text {:?}", t)),
            None => out.push_str("branch"),
        }
        if self.conds != 0 {
            out.push_str(&format!(" conds={:b}", self.conds));
        }
        out.push_str(&format!(" : {}\n", show(&self.n)));
        for c in &self.children {
            c.show_rec(d + 1, out);
        }
    }
    pub fn count_nodes(&self) -> usize {
        1 + self.children.iter().map(|c| c.count_nodes()).sum::<usize>()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum ErrK {
    TextOnTextless,
    ChildOob(isize, usize),
    ChildOnChildless,
    CheckOob(isize, usize),
    CheckOnChildless,
    CountOnChildless,
    FoldOnChildless,
    TextAfterEol,
}

/// The levels of indentation, innermost first.
pub type Ind<'a> = Option<Rc<IndLevel<'a>>>;
pub struct IndLevel<'a> {
    s: &'a str,
    sty: Sty,
    outer: Ind<'a>,
}

pub enum E<'a> {
    Empty,
    Nl(Ind<'a>),
    Eol,
    Txt {
        s: &'a str,
        sty: Sty,
        /// `Some(node id)` if it is the text of a document node
        of: Option<u32>,
    },
    Cat(Rc<E<'a>>, Rc<E<'a>>),
    Alt(Rc<E<'a>>, Rc<E<'a>>),
    Node {
        index: usize,
        id: u32,
        inner: Rc<E<'a>>,
    },
    Mark(u32),
    Fail(ErrK),
}

#[derive(Clone)]
struct Env<'a> {
    node: &'a Node,
    flat: bool,
    ind: Ind<'a>,
    sty: Sty,
    join: Option<(usize, &'a N, &'a N)>,
}

fn norm(i: isize, n: usize) -> Option<usize> {
    let j = if i < 0 { i + n as isize } else { i };
    if j >= 0 && (j as usize) < n {
        Some(j as usize)
    } else {
        None
    }
}

pub fn elaborate<'a>(root: &'a Node, root_style: Option<Sty>) -> Rc<E<'a>> {
    let sty = match root_style {
        Some(s) => Sty::cat(&s, &root.node_style),
        None => root.node_style,
    };
    let env = Env {
        node: root,
        flat: false,
        ind: None,
        sty,
        join: None,
    };
    elab(&root.n, &env)
}

fn enter<'a>(index: usize, node: &'a Node, env: &Env<'a>) -> Rc<E<'a>> {
    let inner = Env {
        node,
        flat: env.flat,
        ind: env.ind.clone(),
        sty: Sty::cat(&env.sty, &node.node_style),
        join: None,
    };
    Rc::new(E::Node {
        index,
        id: node.id,
        inner: elab(&node.n, &inner),
    })
}

fn elab<'a>(n: &'a N, env: &Env<'a>) -> Rc<E<'a>> {
    let node = env.node;
    let fail = |k| Rc::new(E::Fail(k));
    match n {
        N::Empty => Rc::new(E::Empty),
        N::Nl => Rc::new(E::Nl(env.ind.clone())),
        N::Eol => Rc::new(E::Eol),
        N::Lit(s) => Rc::new(E::Txt {
            s,
            sty: env.sty,
            of: None,
        }),
        N::Text => match node.text {
            None => fail(ErrK::TextOnTextless),
            Some(t) => Rc::new(E::Txt {
                s: t,
                sty: env.sty,
                of: Some(node.id),
            }),
        },
        N::Flat(a) => elab(
            a,
            &Env {
                flat: true,
                ..env.clone()
            },
        ),
        N::Indent(s, l, a) => {
            let st = match l {
                None => env.sty,
                Some(l) => Sty::cat(&env.sty, &node.labels[*l as usize]),
            };
            let ind = Some(Rc::new(IndLevel { s, sty: st, outer: env.ind.clone() }));
            elab(a, &Env { ind, ..env.clone() })
        }
        N::Cat(a, b) => Rc::new(E::Cat(elab(a, env), elab(b, env))),
        N::Alt(a, _) if env.flat => elab(a, env),
        N::Alt(a, b) => Rc::new(E::Alt(elab(a, env), elab(b, env))),
        N::Check(c, pos, a, b) => {
            let target = match pos {
                Pos::Here => node,
                Pos::Child(i) => match node.num_children() {
                    None => return fail(ErrK::CheckOnChildless),
                    Some(n) => match norm(*i, n) {
                        None => return fail(ErrK::CheckOob(*i, n)),
                        Some(j) => &node.children[j],
                    },
                },
                Pos::Left => &node.children[env.join.expect("harness: left").0 - 1],
                Pos::Right => &node.children[env.join.expect("harness: right").0],
            };
            elab(if target.cond(*c) { a } else { b }, env)
        }
        N::Child(i) => match node.num_children() {
            None => fail(ErrK::ChildOnChildless),
            Some(n) => match norm(*i, n) {
                None => fail(ErrK::ChildOob(*i, n)),
                Some(j) => enter(j, &node.children[j], env),
            },
        },
        N::Style(l, a) => elab(
            a,
            &Env {
                sty: Sty::cat(&env.sty, &node.labels[*l as usize]),
                ..env.clone()
            },
        ),
        N::Mark => Rc::new(E::Mark(node.id)),
        N::Count(z, o, m) => match node.num_children() {
            None => fail(ErrK::CountOnChildless),
            Some(0) => elab(z, env),
            Some(1) => elab(o, env),
            Some(_) => elab(m, env),
        },
        N::Fold(f, j) => match node.num_children() {
            None => fail(ErrK::FoldOnChildless),
            Some(0) => Rc::new(E::Empty),
            Some(n) => fold_to(n - 1, f, j, env),
        },
        N::Left => {
            let (i, f, j) = env.join.expect("harness: left outside join");
            fold_to(i - 1, f, j, env)
        }
        N::Right => {
            let (i, _, _) = env.join.expect("harness: right outside join");
            enter(i, &node.children[i], env)
        }
    }
}

/// The fold over children 0..=i. (Where `Left` occurs under an Indent, Style or Flat in the join,
/// those apply to the accumulated part as well, as to any other contained notation.)
fn fold_to<'a>(i: usize, f: &'a N, j: &'a N, env: &Env<'a>) -> Rc<E<'a>> {
    if i == 0 {
        elab(
            f,
            &Env {
                join: None,
                ..env.clone()
            },
        )
    } else {
        elab(
            j,
            &Env {
                join: Some((i, f, j)),
                ..env.clone()
            },
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct At {
    pub line: usize,
    /// number of chars on the line before this point
    pub col: usize,
}

#[derive(Clone, Copy, Debug)]
pub enum Ev {
    Start { index: usize, id: u32, at: At },
    End { at: At },
    Mark { id: u32, at: At },
    Text { id: u32, at: At, chars: usize },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Seg<'a> {
    pub s: &'a str,
    pub sty: Sty,
}

pub type LineM<'a> = Vec<Seg<'a>>;

#[derive(Default)]
pub struct Laid<'a> {
    pub lines: Vec<LineM<'a>>,
    pub evs: Vec<Ev>,
    /// Layout cannot be completed: an error is part of it.
    pub err: Option<ErrK>,
    /// While deciding some choice, an error was seen in text that may or may not be part of it; or
    /// an option that was not chosen contains one.
    pub maybe_err: Vec<ErrK>,
    pub steps: u64,
    /// decisions: (first option taken, second option taken)
    pub took: (u64, u64),
    pub eols: u64,
    pub width_ok: bool,
}

pub fn width_of(s: &str) -> u64 {
    // Straight from the Unicode tables, not by the crate's own measure.
    if s.is_ascii() && s.bytes().all(|b| (0x20..0x7f).contains(&b)) {
        s.len() as u64
    } else {
        unicode_width::UnicodeWidthStr::width(s) as u64
    }
}

enum Item<'a> {
    E(Rc<E<'a>>),
    End,
}

pub fn collect_fails(e: &E, out: &mut Vec<ErrK>) {
    match e {
        E::Cat(a, b) | E::Alt(a, b) => {
            collect_fails(a, out);
            collect_fails(b, out);
        }
        E::Node { inner, .. } => collect_fails(inner, out),
        E::Fail(k) => out.push(*k),
        _ => (),
    }
}

pub fn lay_out<'a>(root: &'a Node, rootE: Rc<E<'a>>, width: u64) -> Laid<'a> {
    let mut out = Laid {
        lines: vec![vec![]],
        width_ok: true,
        ..Default::default()
    };
    let mut col: u64 = 0; // width so far of the current line
    let mut chars: usize = 0;
    let mut at_eol = false;
    let mut stack: Vec<Item<'a>> = vec![Item::End, Item::E(rootE)];
    out.evs.push(Ev::Start {
        index: 0,
        id: root.id,
        at: At { line: 0, col: 0 },
    });
    while let Some(item) = stack.pop() {
        out.steps += 1;
        let at = At {
            line: out.lines.len() - 1,
            col: chars,
        };
        let e = match item {
            Item::End => {
                out.evs.push(Ev::End { at });
                continue;
            }
            Item::E(e) => e,
        };
        match &*e {
            E::Empty => (),
            E::Nl(ind) => {
                if col > width {
                    out.width_ok = false;
                }
                let mut line = vec![];
                col = 0;
                chars = 0;
                at_eol = false;
                let mut level = ind.as_ref();
                while let Some(l) = level {
                    line.push(Seg { s: l.s, sty: l.sty });
                    col += width_of(l.s);
                    chars += l.s.chars().count();
                    level = l.outer.as_ref();
                }
                line.reverse();
                out.lines.push(line);
            }
            E::Eol => {
                out.eols += 1;
                at_eol = true;
            }
            E::Txt { s, sty, of } => {
                if at_eol {
                    out.err = Some(ErrK::TextAfterEol);
                    return out;
                }
                if let Some(id) = of {
                    out.evs.push(Ev::Text {
                        id: *id,
                        at,
                        chars: s.chars().count(),
                    });
                }
                out.lines.last_mut().unwrap().push(Seg { s, sty: *sty });
                col += width_of(s);
                chars += s.chars().count();
            }
            E::Cat(a, b) => {
                stack.push(Item::E(b.clone()));
                stack.push(Item::E(a.clone()));
            }
            E::Alt(a, b) => {
                let f = fits(width as i64 - col as i64, at_eol, a, &stack, &mut out);
                let (take, leave) = if f { (a, b) } else { (b, a) };
                collect_fails(leave, &mut out.maybe_err);
                if f {
                    out.took.0 += 1
                } else {
                    out.took.1 += 1
                }
                stack.push(Item::E(take.clone()));
            }
            E::Node { index, id, inner } => {
                out.evs.push(Ev::Start {
                    index: *index,
                    id: *id,
                    at,
                });
                stack.push(Item::End);
                stack.push(Item::E(inner.clone()));
            }
            E::Mark(id) => out.evs.push(Ev::Mark { id: *id, at }),
            E::Fail(k) => {
                out.err = Some(*k);
                return out;
            }
        }
    }
    if col > width {
        out.width_ok = false;
    }
    out
}

/// Does the rest of the current line fit in `room` columns if `opt` comes next, with the rest of
/// the document after it? Undecided choices are taken at their second option.
fn fits<'a>(
    mut room: i64,
    mut at_eol: bool,
    opt: &Rc<E<'a>>,
    rest: &[Item<'a>],
    out: &mut Laid<'a>,
) -> bool {
    if room < 0 {
        return false;
    }
    let mut todo: Vec<Rc<E<'a>>> = vec![opt.clone()];
    let mut k = rest.len();
    loop {
        let e = match todo.pop() {
            Some(e) => e,
            None => loop {
                if k == 0 {
                    return true;
                }
                k -= 1;
                if let Item::E(e) = &rest[k] {
                    break e.clone();
                }
            },
        };
        out.steps += 1;
        match &*e {
            E::Empty | E::Mark(_) => (),
            E::Nl(_) => return true,
            E::Eol => at_eol = true,
            E::Txt { s, .. } => {
                room -= width_of(s) as i64;
                if at_eol || room < 0 {
                    return false;
                }
            }
            E::Cat(a, b) => {
                todo.push(b.clone());
                todo.push(a.clone());
            }
            E::Alt(_, b) => todo.push(b.clone()),
            E::Node { inner, .. } => todo.push(inner.clone()),
            E::Fail(k) => {
                out.maybe_err.push(*k);
                return false;
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Target {
    Start,
    End,
    Mark,
    Text(usize),
}
impl Target {
    pub fn real(self) -> ppp::FocusTarget {
        match self {
            Target::Start => ppp::FocusTarget::Start,
            Target::End => ppp::FocusTarget::End,
            Target::Mark => ppp::FocusTarget::Mark,
            Target::Text(i) => ppp::FocusTarget::Text(i),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Expect {
    At(At),
    InvalidPath(usize),
    MissingMark,
    MissingText,
    /// The node is displayed more than once and the documentation does not say which one is meant.
    Unspecified,
}

impl<'a> Laid<'a> {
    /// (start event index, end event index) of the first occurrence of child `index` directly
    /// inside the occurrence that spans events s..e.
    fn child_occurrence(&self, s: usize, e: usize, index: usize) -> Option<(usize, usize)> {
        let mut depth = 0;
        let mut i = s + 1;
        while i < e {
            match self.evs[i] {
                Ev::Start { index: ix, .. } => {
                    if depth == 0 && ix == index {
                        // find its end
                        let mut d = 0;
                        let mut j = i + 1;
                        loop {
                            match self.evs[j] {
                                Ev::Start { .. } => d += 1,
                                Ev::End { .. } => {
                                    if d == 0 {
                                        return Some((i, j));
                                    }
                                    d -= 1;
                                }
                                _ => (),
                            }
                            j += 1;
                        }
                    }
                    depth += 1;
                }
                Ev::End { .. } => depth -= 1,
                _ => (),
            }
            i += 1;
        }
        None
    }

    pub fn has_repeats(&self) -> bool {
        let mut ids: Vec<u32> = self
            .evs
            .iter()
            .filter_map(|e| match e {
                Ev::Start { id, .. } => Some(*id),
                _ => None,
            })
            .collect();
        ids.sort_unstable();
        ids.windows(2).any(|w| w[0] == w[1])
    }

    pub fn expect(&self, path: &[usize], target: Target) -> Expect {
        let repeats = self.has_repeats();
        let unless = |e: Expect| if repeats { Expect::Unspecified } else { e };
        let (mut s, mut e) = (0, self.evs.len() - 1);
        for &i in path {
            match self.child_occurrence(s, e, i) {
                Some((a, b)) => {
                    s = a;
                    e = b;
                }
                None => return unless(Expect::InvalidPath(i)),
            }
        }
        let (sid, sat) = match self.evs[s] {
            Ev::Start { id, at, .. } => (id, at),
            _ => unreachable!(),
        };
        let eat = match self.evs[e] {
            Ev::End { at } => at,
            _ => unreachable!(),
        };
        match target {
            Target::Start => Expect::At(sat),
            Target::End => Expect::At(eat),
            Target::Mark => {
                for ev in &self.evs[s..e] {
                    if let Ev::Mark { id, at } = ev {
                        if *id == sid {
                            return Expect::At(*at);
                        }
                    }
                }
                unless(Expect::MissingMark)
            }
            Target::Text(k) => {
                for ev in &self.evs[s..e] {
                    if let Ev::Text { id, at, chars } = ev {
                        if *id == sid {
                            return Expect::At(At {
                                line: at.line,
                                col: at.col + k.min(*chars),
                            });
                        }
                    }
                }
                unless(Expect::MissingText)
            }
        }
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        for (i, l) in self.lines.iter().enumerate() {
            if i > 0 {
                s.push('\n');
            }
            for seg in l {
                s.push_str(seg.s);
            }
        }
        s
    }

    /// Lines of the node at `path` (first displayed occurrence): first and last line.
    pub fn span(&self, path: &[usize]) -> Option<(usize, usize)> {
        match (self.expect(path, Target::Start), self.expect(path, Target::End)) {
            (Expect::At(a), Expect::At(b)) => Some((a.line, b.line)),
            _ => None,
        }
    }
}
