//! C12..C15: panes. The real `display_pane` writes into a recording window; the model computes
//! the expected cell grid from the documentation of `PaneNotation`, `PaneSize` and
//! `PrintingOptions`, using the reference layout of each document.

use super::{Prop, Tier};
use crate::doc::{Ctx, DErr, DRef};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use partial_pretty_printer as ppp;
use ppp::pane::{self, PaneError, PaneNotation, PaneSize, PrettyWindow, PrintingOptions, WidthStrategy};
use std::cell::{Cell, RefCell};
use std::sync::Arc;

// ---- model notation -------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sz {
    Fixed(usize),
    Dyn,
    Prop(usize),
}
#[derive(Clone, Debug)]
pub enum P {
    Fill(char),
    Doc(usize),
    Style(u8, Box<P>),
    Horz(Vec<(Sz, P)>),
    Vert(Vec<(Sz, P)>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strat {
    Full,
    Fixed(u16),
    NoMore(u16),
}
#[derive(Clone, Debug)]
pub struct Opts {
    pub path: Vec<usize>,
    pub target: Target,
    pub height: f32,
    pub strat: Strat,
    pub set_focus: bool,
}
impl Opts {
    pub fn plain() -> Opts {
        Opts {
            path: vec![],
            target: Target::Start,
            height: 0.0,
            strat: Strat::Full,
            set_focus: false,
        }
    }
    pub fn real(&self) -> PrintingOptions {
        PrintingOptions {
            focus_path: self.path.clone(),
            focus_target: self.target.real(),
            focus_height: self.height,
            width_strategy: match self.strat {
                Strat::Full => WidthStrategy::Full,
                Strat::Fixed(w) => WidthStrategy::Fixed(w),
                Strat::NoMore(w) => WidthStrategy::NoMoreThan(w),
            },
            set_focus: self.set_focus,
        }
    }
}
pub struct Content {
    pub root: Node,
    pub opts: Opts,
}

pub fn to_real_pane(p: &P) -> PaneNotation<usize, Sty> {
    let sub = |v: &Vec<(Sz, P)>| {
        v.iter()
            .map(|(s, p)| {
                (
                    match s {
                        Sz::Fixed(n) => PaneSize::Fixed(*n),
                        Sz::Dyn => PaneSize::Dynamic,
                        Sz::Prop(n) => PaneSize::Proportional(*n),
                    },
                    to_real_pane(p),
                )
            })
            .collect()
    };
    match p {
        P::Fill(ch) => PaneNotation::Fill { ch: *ch },
        P::Doc(l) => PaneNotation::Doc { label: *l },
        P::Style(t, p) => PaneNotation::Style {
            style: Sty::tok(*t),
            notation: Box::new(to_real_pane(p)),
        },
        P::Horz(v) => PaneNotation::Horz(sub(v)),
        P::Vert(v) => PaneNotation::Vert(sub(v)),
    }
}

// ---- recording window -----------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WErr(pub u64);
impl std::fmt::Display for WErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "window failure at call {}", self.0)
    }
}
impl std::error::Error for WErr {}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Write {
    pub ch: char,
    pub row: u32,
    pub col: u16,
    pub sty: Sty,
    pub full: bool,
}

#[derive(Default)]
pub struct RecWin {
    pub w: u16,
    pub h: u32,
    pub writes: Vec<Write>,
    pub focus: Vec<(u32, u16)>,
    pub calls: Cell<u64>,
    /// 1-based call that fails; 0 = none
    pub fail_at: u64,
    pub after_failure: Cell<u64>,
}
impl RecWin {
    fn call(&self) -> Result<(), WErr> {
        let k = self.calls.get() + 1;
        self.calls.set(k);
        if self.fail_at != 0 && k > self.fail_at {
            self.after_failure.set(self.after_failure.get() + 1);
        }
        if k == self.fail_at {
            return Err(WErr(k));
        }
        Ok(())
    }
}
impl PrettyWindow for RecWin {
    type Error = WErr;
    type Style = Sty;
    fn size(&self) -> Result<ppp::Size, WErr> {
        self.call()?;
        Ok(ppp::Size {
            width: self.w,
            height: self.h,
        })
    }
    fn display_char(&mut self, ch: char, pos: ppp::Pos, style: &Sty, full: bool) -> Result<(), WErr> {
        self.call()?;
        self.writes.push(Write {
            ch,
            row: pos.row,
            col: pos.col,
            sty: *style,
            full,
        });
        Ok(())
    }
    fn set_focus(&mut self, pos: ppp::Pos) -> Result<(), WErr> {
        self.call()?;
        self.focus.push((pos.row, pos.col));
        Ok(())
    }
}

// ---- the model ------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    Fill,
    Doc,
    Blank,
    /// the right half of the full-width character to the left
    Half,
}
#[derive(Clone, Copy, Debug)]
pub struct CellM {
    pub ch: char,
    pub sty: Sty,
    pub what: What,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PErr {
    Dynamic,
    Doc(ErrK),
    Path(usize),
    Mark,
    Text,
}

pub struct Grid {
    pub w: u16,
    pub h: u32,
    pub cells: Vec<Option<CellM>>,
    pub focus: Vec<(u32, u16)>,
    /// focus points of dynamic panes that came out empty: may be set or not
    pub maybe_focus: Vec<(u32, u16)>,
    pub errs: Vec<PErr>,
    /// something the documentation leaves open was met
    pub open: bool,
}

fn cw(c: char) -> u64 {
    width_of(c.encode_utf8(&mut [0; 4]))
}

struct Shown {
    lines: Vec<Vec<(char, Sty)>>,
    focus_line: usize,
    focus_col: u64,
    focus: bool,
    blank: Sty,
}

#[derive(Clone, Copy)]
struct Rect {
    r0: u32,
    r1: u32,
    c0: u16,
    c1: u16,
}

fn line_width(l: &[(char, Sty)]) -> u64 {
    l.iter().map(|(c, _)| cw(*c)).sum()
}

impl Grid {
    pub fn of(p: &P, contents: &[Option<Content>], sty: Sty, w: u16, h: u32) -> Grid {
        let mut g = Grid {
            w,
            h,
            cells: vec![None; w as usize * h as usize],
            focus: vec![],
            maybe_focus: vec![],
            errs: vec![],
            open: false,
        };
        g.pane(p, contents, sty, Rect { r0: 0, r1: h, c0: 0, c1: w });
        g
    }
    fn put(&mut self, r: u32, c: u16, ch: char, sty: Sty, what: What) {
        let i = r as usize * self.w as usize + c as usize;
        assert!(self.cells[i].is_none(), "harness: model writes twice");
        self.cells[i] = Some(CellM { ch, sty, what });
        if cw(ch) == 2 {
            assert!(c + 1 < self.w);
            self.cells[i + 1] = Some(CellM { ch, sty, what: What::Half });
        }
    }
    fn shown(&mut self, content: &Content, sty: Sty, w: u16) -> Option<Shown> {
        let width = match content.opts.strat {
            Strat::Full => w,
            Strat::Fixed(n) => n,
            Strat::NoMore(n) => n.min(w),
        };
        let e = elaborate(&content.root, Some(sty));
        let laid = lay_out(&content.root, e, width as u64);
        if let Some(k) = laid.err {
            self.errs.push(PErr::Doc(k));
            return None;
        }
        let at = match laid.expect(&content.opts.path, content.opts.target) {
            Expect::At(at) => at,
            Expect::InvalidPath(i) => {
                self.errs.push(PErr::Path(i));
                return None;
            }
            Expect::MissingMark => {
                self.errs.push(PErr::Mark);
                return None;
            }
            Expect::MissingText => {
                self.errs.push(PErr::Text);
                return None;
            }
            Expect::Unspecified => {
                self.open = true;
                return None;
            }
        };
        let lines: Vec<Vec<(char, Sty)>> = laid
            .lines
            .iter()
            .map(|l| l.iter().flat_map(|s| s.s.chars().map(move |c| (c, s.sty))).collect())
            .collect();
        let focus_col = line_width(&lines[at.line][..at.col]);
        Some(Shown {
            lines,
            focus_line: at.line,
            focus_col,
            focus: content.opts.set_focus,
            blank: sty,
        })
    }
    fn focus_row(content: &Content, h: u32) -> u32 {
        ((h - 1) as f64 * content.opts.height as f64 + 0.5).floor() as u32
    }
    /// Show lines from `start` on.
    fn show(&mut self, s: &Shown, start: i64, r: Rect) {
        if s.focus {
            let row = s.focus_line as i64 - start + r.r0 as i64;
            let point = (row as u32, (s.focus_col + r.c0 as u64).min(65535) as u16);
            if r.r0 == r.r1 || r.c0 == r.c1 {
                self.maybe_focus.push(point);
            } else {
                self.focus.push(point);
            }
        }
        for row in r.r0..r.r1 {
            let i = start + (row - r.r0) as i64;
            let mut col = r.c0;
            if i >= 0 && (i as usize) < s.lines.len() {
                for (ch, sty) in &s.lines[i as usize] {
                    if col as u64 + cw(*ch) > r.c1 as u64 {
                        break;
                    }
                    self.put(row, col, *ch, *sty, What::Doc);
                    col += cw(*ch) as u16;
                }
            }
            while col < r.c1 {
                self.put(row, col, ' ', s.blank, What::Blank);
                col += 1;
            }
        }
    }
    fn blank(&mut self, sty: Sty, r: Rect) {
        for row in r.r0..r.r1 {
            for col in r.c0..r.c1 {
                self.put(row, col, ' ', sty, What::Blank);
            }
        }
    }
    fn pane(&mut self, p: &P, contents: &[Option<Content>], sty: Sty, r: Rect) {
        let (w, h) = (r.c1 - r.c0, r.r1 - r.r0);
        match p {
            P::Fill(ch) => {
                // (a character without width gets a cell of its own too)
                let cw = if cw(*ch) == 2 { 2 } else { 1 };
                for row in r.r0..r.r1 {
                    let mut col = r.c0;
                    while col as u64 + cw <= r.c1 as u64 {
                        self.put(row, col, *ch, sty, What::Fill);
                        col = match col.checked_add(cw as u16) {
                            Some(c) => c,
                            None => break,
                        };
                    }
                    if col < r.c1 {
                        self.put(row, col, ' ', sty, What::Blank);
                    }
                }
            }
            P::Doc(l) => match &contents[*l] {
                None => self.blank(sty, r),
                Some(content) => {
                    if w == 0 || h == 0 {
                        return;
                    }
                    if let Some(s) = self.shown(content, sty, w) {
                        let start = s.focus_line as i64 - Grid::focus_row(content, h) as i64;
                        self.show(&s, start, r);
                    }
                }
            },
            P::Style(t, p) => self.pane(p, contents, Sty::cat(&sty, &Sty::tok(*t)), r),
            P::Horz(v) | P::Vert(v) => {
                let horz = matches!(p, P::Horz(_));
                let space = if horz { w as u64 } else { h as u64 };
                // 1. fixed panes, first come first served
                let mut left = space;
                let mut sizes: Vec<u64> = vec![0; v.len()];
                for (i, (s, _)) in v.iter().enumerate() {
                    if let Sz::Fixed(n) = s {
                        sizes[i] = left.min(*n as u64);
                        left -= sizes[i];
                    }
                }
                // 2. dynamic panes get what their document needs, or all that is left
                let mut dynamic: Vec<Option<(Shown, i64)>> = (0..v.len()).map(|_| None).collect();
                let mut dynsty: Vec<Sty> = vec![sty; v.len()];
                for (i, (s, p)) in v.iter().enumerate() {
                    if *s != Sz::Dyn {
                        continue;
                    }
                    let mut p = p;
                    let mut sty = sty;
                    while let P::Style(t, q) = p {
                        sty = Sty::cat(&sty, &Sty::tok(*t));
                        p = q;
                    }
                    dynsty[i] = sty;
                    let l = match p {
                        P::Doc(l) => *l,
                        _ => {
                            self.errs.push(PErr::Dynamic);
                            continue;
                        }
                    };
                    let content = match &contents[l] {
                        None => continue,
                        Some(c) => c,
                    };
                    let (aw, ah) = if horz { (left as u16, h) } else { (w, left as u32) };
                    if aw == 0 || ah == 0 {
                        continue;
                    }
                    if let Some(s) = self.shown(content, sty, aw) {
                        let row = Grid::focus_row(content, ah);
                        if horz {
                            let start = s.focus_line as i64 - row as i64;
                            let need = (0..h as i64)
                                .map(|k| start + k)
                                .filter(|i| *i >= 0 && *i < s.lines.len() as i64)
                                .map(|i| line_width(&s.lines[i as usize]))
                                .max()
                                .unwrap_or(0);
                            sizes[i] = need.min(left);
                            dynamic[i] = Some((s, start));
                        } else {
                            let n = s.lines.len() as i64;
                            sizes[i] = (n as u64).min(left);
                            let start = (s.focus_line as i64 - row as i64)
                                .min(n - sizes[i] as i64)
                                .max(0);
                            dynamic[i] = Some((s, start));
                        }
                        left -= sizes[i];
                    }
                }
                // 3. proportional panes share the rest by the largest remainder
                let weights: Vec<(usize, u128)> = v
                    .iter()
                    .enumerate()
                    .filter_map(|(i, (s, _))| match s {
                        Sz::Prop(n) => Some((i, *n as u128)),
                        _ => None,
                    })
                    .collect();
                let total: u128 = weights.iter().map(|x| x.1).sum();
                if total > 0 {
                    let rest = left as u128;
                    let mut given = 0;
                    for (i, n) in &weights {
                        sizes[*i] = (rest * n / total) as u64;
                        given += sizes[*i];
                    }
                    let mut taken = vec![false; v.len()];
                    for _ in given..left {
                        // the largest remainder not yet served; the leftmost one on ties
                        let mut best: Option<(usize, u128)> = None;
                        for (i, n) in &weights {
                            let rem = rest * n % total;
                            if !taken[*i] && best.map_or(true, |b| rem > b.1) {
                                best = Some((*i, rem));
                            }
                        }
                        let (i, _) = best.expect("harness: more left over than panes");
                        taken[i] = true;
                        sizes[i] += 1;
                    }
                }
                // 4. tile
                let mut at = if horz { r.c0 as u64 } else { r.r0 as u64 };
                for (i, (s, p)) in v.iter().enumerate() {
                    let to = at + sizes[i];
                    let sub = if horz {
                        Rect { c0: at as u16, c1: to as u16, ..r }
                    } else {
                        Rect { r0: at as u32, r1: to as u32, ..r }
                    };
                    at = to;
                    if *s == Sz::Dyn {
                        match dynamic[i].take() {
                            Some((s, start)) => self.show(&s, start, sub),
                            None => self.blank(dynsty[i], sub),
                        }
                    } else {
                        self.pane(p, contents, sty, sub);
                    }
                }
            }
        }
    }

    pub fn show_text(&self) -> String {
        let mut s = String::new();
        for r in 0..self.h.min(40) {
            s.push_str("  |");
            for c in 0..self.w.min(100) {
                match self.cells[r as usize * self.w as usize + c as usize] {
                    None => s.push('·'),
                    Some(CellM { what: What::Half, .. }) => (),
                    Some(x) => s.push(x.ch),
                }
            }
            s.push_str("|\n");
        }
        s
    }
}

// ---- comparison -----------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    /// which cells are written, once each; and by which fill
    Cells,
    /// what is shown where, and the focus
    Content,
    /// styles of the written cells
    Styles,
}

fn show_writes(w: u16, h: u32, writes: &[Write]) -> String {
    let mut g: Vec<Option<Write>> = vec![None; w as usize * h as usize];
    for x in writes {
        if let Some(c) = g.get_mut(x.row as usize * w as usize + x.col as usize) {
            *c = Some(*x);
        }
    }
    let mut s = String::new();
    for r in 0..h.min(40) {
        s.push_str("  |");
        let mut c = 0;
        while c < w.min(100) {
            match g[r as usize * w as usize + c as usize] {
                None => s.push('·'),
                Some(x) => {
                    s.push(x.ch);
                    if x.full {
                        c += 1;
                    }
                }
            }
            c += 1;
        }
        s.push_str("|\n");
    }
    s
}

/// Are all these writes right? With `complete`, is nothing missing?
pub fn compare_cells(win: &RecWin, g: &Grid, aspect: Aspect, complete: bool) -> Result<(), String> {
    let mut seen = vec![false; g.cells.len()];
    for x in &win.writes {
        let n = if x.full { 2 } else { 1 };
        let place = format!("{:?} at row {} column {}", x.ch, x.row, x.col);
        if x.row >= g.h || x.col as u64 + n > g.w as u64 {
            return Err(format!("{} is outside of the {}x{} window", place, g.w, g.h));
        }
        let i = x.row as usize * g.w as usize + x.col as usize;
        for j in i..i + n as usize {
            if seen[j] {
                return Err(format!("{} overwrites a cell that was already written", place));
            }
            seen[j] = true;
            if g.cells[j].is_none() {
                return Err(format!("{} is in no leaf pane", place));
            }
        }
        let m = g.cells[i].unwrap();
        if aspect == Aspect::Cells && m.what != What::Fill {
            continue;
        }
        if m.what == What::Half || m.ch != x.ch || x.full != (cw(x.ch) == 2) {
            return Err(format!(
                "{}{}: expected {:?} ({:?})",
                place,
                if x.full { " (full width)" } else { "" },
                m.ch,
                m.what
            ));
        }
        if aspect == Aspect::Styles && m.sty != x.sty {
            return Err(format!("{} has style {:?}, expected {:?}", place, x.sty, m.sty));
        }
    }
    if complete {
        for (i, c) in g.cells.iter().enumerate() {
            if c.is_some() && !seen[i] {
                return Err(format!(
                    "nothing was written at row {} column {}",
                    i / g.w as usize,
                    i % g.w as usize
                ));
            }
        }
    }
    Ok(())
}

/// The required focus points, each once, and possibly some of the optional ones.
fn same_focus(got: &[(u32, u16)], g: &Grid) -> bool {
    let mut need = g.focus.clone();
    let mut may = g.maybe_focus.clone();
    for f in got {
        if let Some(i) = need.iter().position(|x| x == f) {
            need.swap_remove(i);
        } else if let Some(i) = may.iter().position(|x| x == f) {
            may.swap_remove(i);
        } else {
            return false;
        }
    }
    need.is_empty()
}

pub struct Scene<'a> {
    pub pane: &'a P,
    pub contents: &'a [Option<Content>],
    pub sty: Sty,
    pub w: u16,
    pub h: u32,
}

pub type Shown2 = Result<(), PaneError<WErr, DErr>>;

impl<'a> Scene<'a> {
    pub fn run(&self, ctx: &'a Ctx, fail_at: u64) -> (RecWin, Shown2) {
        let mut win = RecWin {
            w: self.w,
            h: self.h,
            fail_at,
            ..Default::default()
        };
        let note = to_real_pane(self.pane);
        let asked: RefCell<Vec<usize>> = RefCell::new(vec![]);
        let get = |l: usize| -> Option<(DRef<'_, true>, PrintingOptions)> {
            asked.borrow_mut().push(l);
            self.contents[l]
                .as_ref()
                .map(|c| (DRef::<true>::new(ctx, &c.root), c.opts.real()))
        };
        let r = pane::display_pane(&mut win, &note, &self.sty, &get);
        (win, r)
    }
    pub fn show(&self) -> String {
        let mut s = format!("{}x{} window, style {:?}, pane {:?}\n", self.w, self.h, self.sty, self.pane);
        for (i, c) in self.contents.iter().enumerate() {
            if let Some(c) = c {
                s.push_str(&format!("document {}: {:?}\n{}", i, c.opts, show_node(&c.root, 1)));
            }
        }
        s
    }
}

pub fn show_node(n: &Node, d: usize) -> String {
    let mut s = format!("{}{} : {}\n", "  ".repeat(d), match n.text {
        Some(t) if t.len() > 60 => format!("text <{} bytes>", t.len()),
        Some(t) => format!("text {:?}", t),
        None => "branch".to_string(),
    }, show(&n.n));
    for c in &n.children {
        s.push_str(&show_node(c, d + 1));
    }
    s
}

pub fn check_scene(sc: &Scene, aspect: Aspect, st: &mut Stats) -> Result<bool, String> {
    let g = Grid::of(sc.pane, sc.contents, sc.sty, sc.w, sc.h);
    if g.open {
        return Ok(false);
    }
    let ctx = Ctx::new();
    st.add("runs", 1);
    st.add("states", 1);
    let (win, r) = sc.run(&ctx, 0);
    st.add("transitions", win.calls.get() + ctx.calls.get());
    if g.errs.is_empty() {
        if let Err(e) = r {
            return Err(format!("error {:?}", e));
        }
        compare_cells(&win, &g, aspect, true).map_err(|m| {
            format!(
                "{}\nexpected:\n{}shown:\n{}",
                m,
                g.show_text(),
                show_writes(sc.w, sc.h, &win.writes)
            )
        })?;
        if aspect == Aspect::Content {
            if !same_focus(&win.focus, &g) {
                return Err(format!(
                    "focus set at (row, column) {:?}, expected {:?}\nshown:\n{}",
                    win.focus,
                    g.focus,
                    show_writes(sc.w, sc.h, &win.writes)
                ));
            }
        }
        let styles = aspect == Aspect::Styles;
        let grid: Vec<(char, u32, u16, Option<Sty>)> = win
            .writes
            .iter()
            .map(|x| (x.ch, x.row, x.col, if styles { Some(x.sty) } else { None }))
            .collect();
        st.outcome(hash_of(&(grid, &win.focus)));
    } else {
        st.add("scenes that fail", 1);
        match r {
            Ok(()) => return Err(format!("displayed, although {:?}", g.errs)),
            Err(e) => {
                if !g.errs.iter().any(|k| same_perr(&e, *k)) {
                    return Err(format!("error {:?}, expected one of {:?}", e, g.errs));
                }
            }
        }
        st.outcome(hash_of(&format!("{:?}", g.errs)));
    }
    Ok(true)
}

pub fn same_perr(e: &PaneError<WErr, DErr>, k: PErr) -> bool {
    type PE = ppp::PrintingError<DErr>;
    if let PaneError::PrintingError(inner) = e {
        // the message and the chain of causes lead to the printing error
        let via = cause::<PE>(e).map(|c| c.to_string());
        if via != Some(inner.to_string()) || !e.to_string().contains(&inner.to_string()) {
            return false;
        }
    }
    match (e, k) {
        (PaneError::InvalidUseOfDynamic, PErr::Dynamic) => true,
        (PaneError::PrintingError(e), PErr::Doc(k)) => same_err(e, k),
        (PaneError::PrintingError(e @ PE::InvalidPath(i)), PErr::Path(j)) => {
            *i == j && names(&e.to_string(), &[j as i64])
        }
        (PaneError::PrintingError(PE::MissingFocusMark), PErr::Mark) => true,
        (PaneError::PrintingError(PE::MissingText), PErr::Text) => true,
        _ => false,
    }
}

// ---- documents for panes --------------------------------------------------------------------

fn lines(v: Vec<&'static str>) -> Proto {
    Proto::branch(template(2), v.into_iter().map(t).collect())
}
fn flow(v: Vec<&'static str>) -> Proto {
    Proto::branch(template(1), v.into_iter().map(t).collect())
}

pub const N_PDOC: usize = 8;
pub fn pdoc(k: usize) -> Proto {
    match k {
        0 => lines(vec!["ab", "cde"]),
        1 => flow(vec!["uv", "w", "xyz", "q"]),
        2 => t("z"),
        3 => lines(vec!["1", "22", "333", "44", "5"]),
        4 => lines(vec!["信a", "b信信", "c"]),
        5 => Proto::branch(
            template(0),
            vec![t("k"), Proto::branch(template(0), vec![t("信"), t("mn")]), t("")],
        ),
        6 => Proto::branch(
            sty(0, cats(vec![lit("p"), N::Mark, inds("| ", 1, cats(vec![N::Nl, sty(2, child(0)), N::Nl, lit("s")])), N::Nl])),
            vec![flow(vec!["aa", "bb", "cc"])],
        ),
        7 => t(""),
        _ => unreachable!(),
    }
}

fn content(p: Proto, opts: Opts) -> Option<Content> {
    Some(Content {
        root: p.build(false).expect("harness: pane document"),
        opts,
    })
}

fn pane_universe(
    name: &str,
    describe: &str,
    aspect: Aspect,
    make: impl Fn(&mut Chooser) -> Option<(P, Vec<Option<Content>>, Sty, u16, u32)> + Send + Sync + 'static,
) -> Universe {
    Universe {
        name: name.into(),
        describe: describe.into(),
        body: Arc::new(move |ch, st| {
            let (p, contents, sty, w, h) = match make(ch) {
                Some(x) => x,
                None => return Verdict::Skip,
            };
            let sc = Scene {
                pane: &p,
                contents: &contents,
                sty,
                w,
                h,
            };
            match check_scene(&sc, aspect, st) {
                Ok(false) => Verdict::Skip,
                Ok(true) => {
                    if st.want_sample {
                        st.samples.push(sc.show());
                    }
                    Verdict::Ok
                }
                Err(m) => Verdict::Bad(format!("{}\n{}", m, sc.show())),
            }
        }),
    }
}

// ---- C12 ------------------------------------------------------------------------------------

fn fill_char(i: usize) -> char {
    ['a', '信', 'c', '宽', 'e', 'f', '漢', 'h', 'i', 'j', 'k', 'l'][i % 12]
}

/// A leaf pane; documents are numbered as they are met.
fn leaf_pane(ch: &mut Chooser, count: &mut usize, docs: &[usize], contents: &mut Vec<Option<Content>>) -> P {
    let i = *count;
    *count += 1;
    let k = ch.pick(2 + docs.len());
    match k {
        0 => P::Fill(fill_char(i)),
        1 => P::Fill(fill_char(i + 1)),
        k => doc_pane(docs[k - 2], contents),
    }
}
/// Document `k` of the palette; `N_PDOC` stands for a missing document.
fn doc_pane(k: usize, contents: &mut Vec<Option<Content>>) -> P {
    contents.push(if k == N_PDOC {
        None
    } else {
        content(pdoc(k), Opts::plain())
    });
    P::Doc(contents.len() - 1)
}

fn gen_split(
    ch: &mut Chooser,
    n: usize,
    horz: bool,
    sizes: &[Sz],
    docs: &[usize],
    count: &mut usize,
    contents: &mut Vec<Option<Content>>,
    inner: &mut dyn FnMut(&mut Chooser, &mut usize, &mut Vec<Option<Content>>) -> P,
) -> P {
    let mut v = vec![];
    for _ in 0..n {
        let s = sizes[ch.pick(sizes.len())];
        let p = if s == Sz::Dyn {
            let k = docs[ch.pick(docs.len())];
            doc_pane(k, contents)
        } else {
            inner(ch, count, contents)
        };
        v.push((s, p));
    }
    if horz {
        P::Horz(v)
    } else {
        P::Vert(v)
    }
}

/// Splits within splits, generated exhaustively: at each level the deeper pane is first or second.
fn nest(ch: &mut Chooser, depth: usize, contents: &mut Vec<Option<Content>>) -> P {
    if depth == 0 {
        return P::Fill('信');
    }
    let other = match ch.pick(3) {
        0 => (Sz::Fixed(1), P::Fill(['a', 'b', 'c', 'd', 'e'][depth])),
        1 => (Sz::Prop(1), P::Fill(['A', 'B', 'C', 'D', 'E'][depth])),
        _ => (Sz::Dyn, doc_pane([0, 2, 4][depth % 3], contents)),
    };
    let horz = ch.pick(2) == 0;
    let size = [Sz::Prop(1), Sz::Fixed(5), Sz::Prop(3)][ch.pick(3)];
    let first = ch.pick(2) == 0;
    let deep = (size, nest(ch, depth - 1, contents));
    let v = if first { vec![deep, other] } else { vec![other, deep] };
    let p = if horz { P::Horz(v) } else { P::Vert(v) };
    if depth == 2 {
        P::Style(3, Box::new(p))
    } else {
        p
    }
}

/// A chain of splits (and styles), each within the one before, following a repeated pattern.
fn chain_pane(pattern: &[usize], depth: usize, core: P) -> P {
    let mut p = core;
    for i in (0..depth).rev() {
        let other = P::Fill(['a', 'b', 'c', 'd', 'e', 'f', 'g'][i % 7]);
        let f = Sz::Fixed(1);
        let r = Sz::Prop(1);
        p = match pattern[i % pattern.len()] {
            0 => P::Horz(vec![(f, other), (r, p)]),
            1 => P::Horz(vec![(r, p), (f, other)]),
            2 => P::Vert(vec![(f, other), (r, p)]),
            3 => P::Vert(vec![(r, p), (f, other)]),
            4 => P::Style((i % 40) as u8, Box::new(p)),
            5 => P::Vert(vec![(r, p)]),
            6 => P::Horz(vec![(Sz::Prop(9), p), (r, other)]),
            _ => unreachable!(),
        };
    }
    p
}

fn u_nests(t: Tier, aspect: Aspect) -> Vec<Universe> {
    let q = t == Tier::Quick;
    let depth = if q || aspect == Aspect::Styles { 3 } else { 4 };
    vec![
        pane_universe(
            "nests",
            &format!("splits within splits, {} levels: every direction, order and size (fixed, proportional, dynamic) at each, in windows of 11x7 and 4x9", depth),
            aspect,
            move |ch| {
                let mut contents = vec![];
                let (w, h) = [(11, 7), (4, 9)][ch.pick(2)];
                let p = nest(ch, depth, &mut contents);
                Some((p, contents, Sty::tok(50), w, h))
            },
        ),
        pane_universe(
            "style-stacks",
            "a pane of dynamic, fixed or proportional size, within 0 to 12 styles of its own, next to another one, in a horizontal or vertical split within 0 to 3 styles; each of the small documents, none, or a fill; different styles or the same ones",
            aspect,
            move |ch| {
                let horz = ch.pick(2) == 0;
                let (inner, outer) = (ch.pick(13), ch.pick(4));
                let same = ch.pick(3);
                let mut next = 0u8;
                let mut wrap = |times: usize, mut p: P| {
                    for _ in 0..times {
                        next = match same {
                            0 => next + 1,
                            1 => 1,
                            _ => next % 2 + 1,
                        };
                        p = P::Style(next, Box::new(p));
                    }
                    p
                };
                let mut contents = vec![];
                let k = ch.pick(N_PDOC + 2);
                let core = if k == N_PDOC + 1 { P::Fill('信') } else { doc_pane(k, &mut contents) };
                let size = [Sz::Dyn, Sz::Prop(1), Sz::Fixed(3)][ch.pick(3)];
                if size == Sz::Dyn && k == N_PDOC + 1 {
                    return None;
                }
                let mut v = vec![(size, wrap(inner, core)), (Sz::Prop(1), wrap(inner / 2, P::Fill('.')))];
                match ch.pick(3) {
                    0 => (),
                    1 => v.reverse(),
                    _ => v.push((Sz::Dyn, wrap(13 - inner, doc_pane(0, &mut contents)))),
                }
                let p = wrap(outer, if horz { P::Horz(v) } else { P::Vert(v) });
                Some((p, contents, Sty::tok(50), 11, 5))
            },
        ),
        pane_universe(
            "deep",
            "chains of 3, 20, 40 and 90 splits and styles, each within the one before, repeating a pattern of up to 3 (thorough: 4) from 7 kinds, around a document or a fill, in windows of 9x9, 50x30 and 130x2",
            aspect,
            move |ch| {
                let (w, h) = [(9, 9), (50, 30), (130, 2)][ch.pick(3)];
                let depth = [3, 20, 40, 90][ch.pick(4)];
                let m = 1 + ch.pick(if q { 3 } else { 4 });
                let pat: Vec<usize> = (0..m).map(|_| ch.pick(7)).collect();
                let mut contents = vec![];
                let core = if ch.pick(2) == 0 { P::Fill('信') } else { doc_pane(6, &mut contents) };
                Some((chain_pane(&pat, depth, core), contents, Sty::tok(50), w, h))
            },
        ),
    ]
}

/// Rows of panes that repeat a pattern of kinds; styles number up, so that each can be told apart.
fn row_pane(ch: &mut Chooser, len: usize, ns: &[usize], contents: &mut Vec<Option<Content>>) -> P {
    let horz = ch.pick(2) == 0;
    let n = ns[ch.pick(ns.len())];
    let m = 1 + ch.pick(len);
    let pat: Vec<usize> = (0..m).map(|_| ch.pick(9)).collect();
    let mut next = 1u8;
    let mut wrap = |times: usize, mut p: P| {
        for _ in 0..times {
            p = P::Style(next, Box::new(p));
            next = next % 39 + 1;
        }
        p
    };
    let mut doc = |k: usize, i: usize| {
        let p = doc_pane(k, contents);
        if let Some(c) = contents.last_mut().unwrap() {
            c.opts.set_focus = true;
            c.opts.target = if i % 2 == 0 { Target::Start } else { Target::End };
            c.opts.height = HEIGHTS[i % 3];
        }
        p
    };
    let mut v = vec![];
    for i in 0..n {
        v.push(match pat[i % m] {
            0 => (Sz::Dyn, wrap(1, doc([0, 2, 5][i % 3], i))),
            1 => (Sz::Prop(1), wrap(1, P::Fill(fill_char(i)))),
            2 => (Sz::Fixed(2), P::Fill(fill_char(i))),
            3 => (Sz::Dyn, doc([2, 1][i % 2], i)),
            4 => (Sz::Prop(2), wrap(2, doc([1, 6, 0][i % 3], i))),
            5 => (Sz::Dyn, wrap(2, doc(N_PDOC, i))),
            6 => {
                let inner = vec![(Sz::Dyn, wrap(1, doc(2, i))), (Sz::Prop(1), wrap(1, P::Fill('.')))];
                (Sz::Prop(3), wrap(1, if horz { P::Vert(inner) } else { P::Horz(inner) }))
            }
            7 => (Sz::Fixed(3), wrap(1, doc([3, 4][i % 2], i))),
            _ => (Sz::Prop(1), doc(N_PDOC, i)),
        });
    }
    let p = if horz { P::Horz(v) } else { P::Vert(v) };
    wrap(1, p)
}
fn u_rows(t: Tier, aspect: Aspect) -> Universe {
    let q = t == Tier::Quick;
    pane_universe(
        "rows",
        &format!("rows and columns of 3, 4, 6, 9 and 20 panes that repeat a pattern of up to {} from 9 kinds of panes (dynamic, fixed, proportional; fill, document, missing document, another split; 0 to 2 styles around), each document with a focus, in {} windows", if q { 4 } else { 5 }, if q { 3 } else { 4 }),
        aspect,
        move |ch| {
            let mut contents = vec![];
            let p = row_pane(ch, if q { 4 } else { 5 }, &[3, 4, 6, 9, 20], &mut contents);
            let (w, h) = [(12, 9), (60, 4), (5, 40), (100, 50)][ch.pick(if q { 3 } else { 4 })];
            Some((p, contents, Sty::tok(63), w, h))
        },
    )
}

/// A document of `n` lines that differ.
fn long_doc(n: usize) -> Proto {
    const L: [&str; 7] = ["a", "bc", "d信", "", "efghi", "j k", "lmnop信q"];
    lines((0..n).map(|i| L[(i + i / 7) % 7]).collect())
}

/// Texts with characters that take up no column of their own, or join with others: which of them
/// get a cell is left open, but the cells stay in order, inside of their pane and apart.
fn u_odd_texts(t: Tier) -> Universe {
    const CHARS: [&str; 9] = ["a", "信", "\u{301}", "\u{200d}", "\u{1f469}", "\u{fe0f}", "\u{2764}", "\u{1f1e6}", "\u{7}"];
    let q = t == Tier::Quick;
    let len = if q { 5 } else { 6 };
    // interned once: explorer bodies may leak nothing
    let mut texts: Vec<&'static str> = vec![""];
    let mut from = 0;
    for _ in 0..len {
        let to = texts.len();
        for i in from..to {
            for c in CHARS {
                texts.push(Box::leak(format!("{}{}", texts[i], c).into_boxed_str()));
            }
        }
        from = to;
    }
    Universe {
        name: "odd-texts".into(),
        describe: format!(
            "every text of up to {} of the characters {:?}, as a document of its own or as the second line of one, in a window of 0..=6 columns: alone, between two fills, and as a pane of dynamic width; which columns its characters get is left open, that each cell is written once and in order is not",
            len, CHARS
        ),
        body: Arc::new(move |ch, st| {
            let page = ch.pick((texts.len() + 999) / 1000) * 1000;
            let text = texts[page + ch.pick(1000.min(texts.len() - page))];
            let two = ch.pick(2) == 1;
            let kind = ch.pick(3);
            let w = ch.pick(7) as u16;
            let doc = if two { lines(vec!["b", text]) } else { crate::gen::t(text) };
            let h = 1 + two as u32;
            let p = match kind {
                0 => P::Doc(0),
                1 => P::Horz(vec![(Sz::Fixed(1), P::Fill('<')), (Sz::Prop(1), P::Doc(0)), (Sz::Fixed(1), P::Fill('>'))]),
                _ => P::Horz(vec![(Sz::Dyn, P::Doc(0)), (Sz::Prop(1), P::Fill('>'))]),
            };
            let contents = [content(doc, Opts::plain())];
            let sc = Scene { pane: &p, contents: &contents, sty: Sty::NONE, w, h };
            let ctx = Ctx::new();
            st.add("states", 1);
            st.add("runs", 1);
            let win = match guarded(|| sc.run(&ctx, 0)) {
                Ok((win, Ok(()))) => win,
                Ok((_, Err(e))) => return Verdict::Bad(format!("error {:?}\n{}", e, sc.show())),
                Err(m) => return Verdict::Bad(format!("panic: {}\n{}", m, sc.show())),
            };
            st.add("transitions", win.calls.get());
            match loose_cells(&win, w, h, |r| if two && r == 0 { "b" } else { text }) {
                Ok(()) => {
                    let cells: Vec<_> = win.writes.iter().map(|x| (x.ch, x.row, x.col)).collect();
                    st.outcome(hash_of(&cells));
                    Verdict::Ok
                }
                Err(m) => Verdict::Bad(format!("{}\n{}{}", m, sc.show(), show_writes(w, h, &win.writes))),
            }
        }),
    }
}

/// Every character there is.
fn u_every_char(aspect: Aspect) -> Universe {
    let all = crate::gen::AllChars::get();
    Universe {
        name: "every-char".into(),
        describe: "every character of Unicode, as the fill of a pane of 5 columns next to another, and between two letters as a document: alone in 4 columns, and as a pane of dynamic width (where the character is neither one nor two columns wide, or joins its neighbours, which columns they get is left open)".into(),
        body: Arc::new(move |ch, st| {
            let kind = ch.pick(3);
            let (c, text) = all.pick(ch);
            let p = match kind {
                0 => P::Horz(vec![(Sz::Fixed(5), P::Fill(c)), (Sz::Prop(1), P::Fill('.'))]),
                1 => P::Doc(0),
                _ => P::Horz(vec![(Sz::Dyn, P::Doc(0)), (Sz::Prop(1), P::Fill('>'))]),
            };
            let (w, h) = ([6, 4, 7][kind], 1);
            let contents = [content(crate::gen::t(text), Opts::plain())];
            let sc = Scene { pane: &p, contents: &contents, sty: Sty::NONE, w, h };
            if kind == 0 || ([1, 2].contains(&cw(c)) && width_of(text) == 2 + cw(c)) {
                return match check_scene(&sc, aspect, st) {
                    Ok(false) => Verdict::Skip,
                    Ok(true) => Verdict::Ok,
                    Err(m) => Verdict::Bad(format!("{}\n{}", m, sc.show())),
                };
            }
            let ctx = Ctx::new();
            st.add("states", 1);
            st.add("runs", 1);
            let win = match guarded(|| sc.run(&ctx, 0)) {
                Ok((win, Ok(()))) => win,
                Ok((_, Err(e))) => return Verdict::Bad(format!("error {:?}\n{}", e, sc.show())),
                Err(m) => return Verdict::Bad(format!("panic: {}\n{}", m, sc.show())),
            };
            st.add("transitions", win.calls.get());
            match loose_cells(&win, w, h, |_| text) {
                Ok(()) => Verdict::Ok,
                Err(m) => Verdict::Bad(format!("{}\n{}{}", m, sc.show(), show_writes(w, h, &win.writes))),
            }
        }),
    }
}

fn loose_cells<'a>(win: &RecWin, w: u16, h: u32, text: impl Fn(u32) -> &'a str) -> Result<(), String> {
    let mut seen: Vec<Option<char>> = vec![None; w as usize * h as usize];
    for x in &win.writes {
        let place = format!("{:?} at row {} column {}", x.ch, x.row, x.col);
        let n = if x.full { 2 } else { 1 };
        if x.full != (cw(x.ch) == 2) {
            return Err(format!("{}: full width {}", place, x.full));
        }
        if x.row >= h || x.col as u64 + n > w as u64 {
            return Err(format!("{} is outside of the window", place));
        }
        let i = x.row as usize * w as usize + x.col as usize;
        for j in i..i + n as usize {
            if seen[j].is_some() {
                return Err(format!("{} overwrites a cell that was already written", place));
            }
            seen[j] = Some(if j == i { x.ch } else { '\0' });
        }
    }
    if seen.iter().any(|c| c.is_none()) {
        return Err("a cell was not written".into());
    }
    for r in 0..h {
        let line: Vec<char> = seen[r as usize * w as usize..(r as usize + 1) * w as usize].iter().map(|c| c.unwrap()).collect();
        let shown: Vec<char> = line.iter().copied().filter(|c| !"<> \0".contains(*c) && cw(*c) > 0).collect();
        let want: Vec<char> = text(r).chars().filter(|c| cw(*c) > 0).collect();
        if !want.starts_with(&shown) {
            return Err(format!("row {} shows {:?}, the line has {:?}", r, shown, want));
        }
        // nothing of the text behind a blank, nothing behind the right border
        let blank = line.iter().position(|c| " >".contains(*c)).unwrap_or(line.len());
        if line[blank..].iter().any(|c| !" >".contains(*c)) {
            return Err(format!("row {} has text behind a blank: {:?}", r, line));
        }
    }
    Ok(())
}

/// Documents given by the widths of their lines.
fn u_lines(max: usize, aspect: Aspect) -> Universe {
    pane_universe(
        &format!("lines<={}", max),
        &format!("every document of 1 to {} lines that are each empty, or 1, 2 or 6 columns wide, focused on its first, middle or last line, at 3 focus heights: alone, or of dynamic width or height before or after another pane; windows of 9x7, 3x3 and 1x9", max),
        aspect,
        move |ch| {
            let n = 1 + ch.pick(max);
            let l: Vec<&'static str> = (0..n).map(|_| ["", "a", "信", "bc d信"][ch.pick(4)]).collect();
            let mut at = [0, n / 2, n - 1].to_vec();
            at.dedup();
            let at = at[ch.pick(at.len())];
            let o = Opts {
                path: vec![at],
                target: [Target::Start, Target::End][n % 2],
                height: [0.0, 0.5, 1.0][ch.pick(3)],
                strat: Strat::Full,
                set_focus: true,
            };
            let doc = P::Style(1, Box::new(P::Doc(0)));
            let rest = P::Style(2, Box::new(P::Fill('.')));
            let p = match ch.pick(5) {
                0 => P::Horz(vec![(Sz::Dyn, doc), (Sz::Prop(1), rest)]),
                1 => P::Horz(vec![(Sz::Prop(1), rest), (Sz::Dyn, doc)]),
                2 => P::Vert(vec![(Sz::Dyn, doc), (Sz::Prop(1), rest)]),
                3 => P::Vert(vec![(Sz::Prop(1), rest), (Sz::Dyn, doc)]),
                _ => doc,
            };
            let (w, h) = [(9, 7), (3, 3), (1, 9)][ch.pick(3)];
            Some((p, vec![content(lines(l), o)], Sty::tok(50), w, h))
        },
    )
}

/// One line is wider than all the others.
fn u_widest(aspect: Aspect) -> Universe {
    pane_universe(
        "widest",
        "documents of 1 to 70, 100, 129, 200, 257, 513 and 1030 lines, of which one -- any (of the big ones: 20 of them) -- is wider than the others, in a pane of dynamic width before or after another one, in a window as high, focused on the first or the last line or on that one",
        aspect,
        move |ch| {
            let n = match ch.pick(76) {
                k if k < 70 => k + 1,
                k => [100, 129, 200, 257, 513, 1030][k - 70],
            };
            let k = if n <= 70 { ch.pick(n) } else { [0, 1, 2, 31, 32, 40, 63, 64, 65, 99, n / 2, n * 2 / 3, n - 67, n - 34, n - 33, n - 17, n - 9, n - 3, n - 2, n - 1][ch.pick(20)] };
            let l = (0..n).map(|i| if i == k { "wide" } else { ["a", "bb"][i % 2] }).collect();
            let at = [0, k, n - 1][ch.pick(3)];
            let o = Opts {
                path: vec![at],
                height: if at == 0 { 0.0 } else { 1.0 },
                set_focus: true,
                ..Opts::plain()
            };
            let doc = P::Doc(0);
            let rest = P::Fill('.');
            let p = match ch.pick(2) {
                0 => P::Horz(vec![(Sz::Dyn, doc), (Sz::Prop(1), rest)]),
                _ => P::Horz(vec![(Sz::Prop(1), rest), (Sz::Dyn, doc)]),
            };
            Some((p, vec![content(lines(l), o)], Sty::NONE, 6, n as u32))
        },
    )
}

/// What is not shown does not matter, not even if it is wrong.
fn u_unseen(max: usize) -> Universe {
    Universe {
        name: format!("unseen<={}", max),
        describe: format!("documents of 1 to {} lines, one of them wrong in one of 3 ways (a child that does not exist, text after an end-of-line, text of a branch), focused on each line, at 4 focus heights: alone, or of dynamic width or height before or after another pane, in windows of 0 to {} rows: the error is reported if and only if that line would be shown", max, max + 1),
        body: Arc::new(move |ch, st| {
            let n = 1 + ch.pick(max);
            let bad = ch.pick(n);
            let at = ch.pick(n);
            let kind = ch.pick(3);
            // (None of them leads to half a row.)
            let height = [0.0, 0.171875, 0.703125, 1.0][ch.pick(4)];
            let shape = ch.pick(5);
            let h = ch.pick(max + 2) as u32;
            let (wrong, k) = match kind {
                0 => (Proto::branch(child(2), vec![]), ErrK::ChildOob(2, 0)),
                1 => (
                    Proto::branch(cat(child(0), lit("y")), vec![Proto::branch(cat(lit("x"), N::Eol), vec![])]),
                    ErrK::TextAfterEol,
                ),
                _ => (Proto::branch(N::Text, vec![]), ErrK::TextOnTextless),
            };
            let doc = |wrong: Proto| {
                let l = (0..n).map(|i| if i == bad { wrong.clone() } else { t(["a", "bb"][i % 2]) }).collect();
                let opts = Opts { path: vec![at], height, set_focus: true, ..Opts::plain() };
                content(Proto::branch(template(2), l), opts)
            };
            let d = P::Doc(0);
            let rest = P::Fill('.');
            let p = match shape {
                0 => P::Horz(vec![(Sz::Dyn, d), (Sz::Prop(1), rest)]),
                1 => P::Horz(vec![(Sz::Prop(1), rest), (Sz::Dyn, d)]),
                2 => P::Vert(vec![(Sz::Dyn, d), (Sz::Fixed(1), rest)]),
                3 => P::Vert(vec![(Sz::Prop(1), rest), (Sz::Dyn, d)]),
                _ => d,
            };
            let (good, wrong) = ([doc(t("G"))], [doc(wrong)]);
            let g = Grid::of(&p, &good, Sty::NONE, 3, h);
            assert!(g.errs.is_empty() && !g.open, "harness: unseen");
            let shown = g.cells.iter().flatten().any(|c| c.ch == 'G');
            let sc = Scene { pane: &p, contents: &wrong, sty: Sty::NONE, w: 3, h };
            let ctx = Ctx::new();
            st.add("states", 1);
            st.add("runs", 1);
            let (win, r) = match guarded(|| sc.run(&ctx, 0)) {
                Ok(x) => x,
                Err(m) => return Verdict::Bad(format!("panic: {}\n{}", m, sc.show())),
            };
            st.add("transitions", win.calls.get() + ctx.calls.get());
            st.outcome(hash_of(&(shown, n, h, shape, at)));
            let bad = match r {
                Ok(()) if shown => Err("displayed, although a line that is shown is wrong".to_string()),
                Ok(()) => compare_cells(&win, &g, Aspect::Content, true).and_then(|()| match same_focus(&win.focus, &g) {
                    true => Ok(()),
                    false => Err(format!("focus set at {:?}, expected {:?}", win.focus, g.focus)),
                }),
                Err(e) if !shown => Err(format!("error {:?}, although the line that is wrong is not shown", e)),
                Err(e) if !same_perr(&e, PErr::Doc(k)) => Err(format!("error {:?}, expected {:?}", e, k)),
                Err(_) => Ok(()),
            };
            match bad {
                Ok(()) => Verdict::Ok,
                Err(m) => Verdict::Bad(format!("{}\n{}", m, sc.show())),
            }
        }),
    }
}

fn c12(t: Tier) -> Vec<Universe> {
    let q = t == Tier::Quick;
    let nmax = 4;
    let mut v = vec![
        u_lines(if q { 6 } else { 7 }, Aspect::Cells),
        u_every_char(Aspect::Cells),
        u_widest(Aspect::Cells),
        pane_universe(
            "many",
            "splits into 5..=130 panes whose weights repeat a pattern of up to 3 weights from {1, 2, 3, 7, 0} (thorough: 4, also with a fixed pane between every four), in spaces of 0, n/2, n-1, n, n+1, 2n+3, 5n-1 and 1000 columns or rows",
            Aspect::Cells,
            move |ch| {
                let horz = ch.pick(2) == 0;
                let n = [5usize, 17, 20, 21, 22, 24, 33, 50, 64, 65, 130][ch.pick(11)];
                let space = [0, n / 2, n - 1, n, n + 1, 2 * n + 3, 5 * n - 1, 1000][ch.pick(8)];
                let m = 1 + ch.pick(if q { 3 } else { 4 });
                let pat: Vec<usize> = (0..m).map(|_| [1usize, 2, 3, 7, 0][ch.pick(5)]).collect();
                let fixed = !q && ch.pick(2) == 1;
                let mut v = vec![];
                for i in 0..n {
                    v.push((Sz::Prop(pat[i % m]), P::Fill(['a', 'b', 'c', 'd', 'e', 'f', 'g'][i % 7])));
                    if fixed && i % 4 == 3 {
                        v.push((Sz::Fixed(2), P::Fill('X')));
                    }
                }
                let p = if horz { P::Horz(v) } else { P::Vert(v) };
                let (w, h) = if horz { (space as u16, 1) } else { (1, space as u32) };
                Some((p, vec![], Sty::NONE, w, h))
            },
        ),
        pane_universe(
            "shares",
            "up to 4 proportional panes with weights from {0,1,2,3,5,7,10}, next to a fixed one of 0 or 3, in every space of 0..40 columns or rows",
            Aspect::Cells,
            move |ch| {
                let horz = ch.pick(2) == 0;
                let n = 1 + ch.pick(4);
                let space = ch.pick(41);
                let mut v = vec![];
                for i in 0..n {
                    let wgt = [1usize, 2, 3, 5, 7, 10, 0][ch.pick(7)];
                    v.push((Sz::Prop(wgt), P::Fill(['a', 'b', 'c', 'd'][i])));
                }
                match ch.pick(3) {
                    0 => (),
                    1 => v.insert(1, (Sz::Fixed(3), P::Fill('x'))),
                    _ => v.push((Sz::Fixed(0), P::Fill('y'))),
                }
                let p = if horz { P::Horz(v) } else { P::Vert(v) };
                let (w, h) = if horz { (space as u16, 1) } else { (1, space as u32) };
                Some((p, vec![], Sty::NONE, w, h))
            },
        ),
        pane_universe(
            "one-level",
            "a horizontal or vertical split into up to 4 panes of every kind of size (fixed 0, 2, 9; dynamic; weights 1, 2, 0) filled with half- or full-width characters or one of 4 documents (one missing), in windows of 0..8 x 0..3 (or transposed)",
            Aspect::Cells,
            move |ch| {
                let horz = ch.pick(2) == 0;
                let n = 1 + ch.pick(nmax);
                let space = ch.pick(9);
                let other = ch.pick(4);
                let sizes = [Sz::Prop(1), Sz::Fixed(2), Sz::Dyn, Sz::Prop(2), Sz::Fixed(9), Sz::Fixed(0), Sz::Prop(0)];
                let mut contents = vec![];
                let mut count = 0;
                let p = gen_split(ch, n, horz, &sizes, &[0, 1, 2, N_PDOC], &mut count, &mut contents, &mut |ch, c, x| {
                    leaf_pane(ch, c, &[0], x)
                });
                let (w, h) = if horz { (space as u16, other as u32) } else { (other as u16 * 2, space as u32) };
                Some((p, contents, Sty::NONE, w, h))
            },
        ),
        pane_universe(
            "two-level",
            "a split of 1..2 (thorough: 1..3) panes, each of them split again into 1..2 panes (or a leaf), all sizes and leaves, in windows up to 7x5",
            Aspect::Cells,
            move |ch| {
                let horz = ch.pick(2) == 0;
                let n = 1 + ch.pick(if q { 2 } else { 3 });
                let (w, h) = [(7, 5), (3, 4), (6, 1), (1, 6), (5, 0)][ch.pick(5)];
                let sizes: &[Sz] = &[Sz::Prop(1), Sz::Fixed(2), Sz::Dyn, Sz::Prop(2)];
                let mut contents = vec![];
                let mut count = 0;
                let p = gen_split(ch, n, horz, sizes, &[0, 1], &mut count, &mut contents, &mut |ch, c, x| {
                    let m = ch.pick(3);
                    if m == 0 {
                        leaf_pane(ch, c, &[2], x)
                    } else {
                        let hz = ch.pick(2) == 0;
                        let p = gen_split(ch, m, hz, sizes, &[0, 1], c, x, &mut |_, c, _| {
                            *c += 1;
                            P::Fill(fill_char(*c - 1))
                        });
                        P::Style(5, Box::new(p))
                    }
                });
                Some((p, contents, Sty::NONE, w, h))
            },
        ),
    ];
    v.extend(u_nests(t, Aspect::Cells));
    v.push(u_odd_texts(t));
    v.push(u_rows(t, Aspect::Cells));
    v
}

// ---- C13 ------------------------------------------------------------------------------------

const HEIGHTS: [f32; 6] = [0.0, 1.0, 0.5, 0.25, 0.3, 0.75];

fn gen_opts(ch: &mut Chooser, root: &Proto, heights: usize, strats: &[Strat]) -> Option<Opts> {
    let built = root.build(false)?;
    let paths = all_paths(&built);
    let path = paths[ch.pick(paths.len())].clone();
    let target = [Target::Start, Target::End, Target::Mark, Target::Text(1)][ch.pick(4)];
    let height = HEIGHTS[ch.pick(heights)];
    let strat = strats[ch.pick(strats.len())];
    Some(Opts {
        path,
        target,
        height,
        strat,
        set_focus: true,
    })
}

/// Surroundings of one document pane.
fn context(k: usize, doc: P) -> P {
    let f = |c| P::Fill(c);
    match k {
        0 => doc,
        1 => P::Horz(vec![(Sz::Fixed(2), f('#')), (Sz::Prop(1), doc)]),
        2 => P::Vert(vec![(Sz::Fixed(1), f('-')), (Sz::Prop(1), doc), (Sz::Fixed(1), f('='))]),
        3 => P::Vert(vec![(Sz::Dyn, doc), (Sz::Prop(1), f('.'))]),
        4 => P::Vert(vec![(Sz::Prop(1), f('.')), (Sz::Dyn, doc)]),
        5 => P::Horz(vec![(Sz::Dyn, doc), (Sz::Prop(1), f('.'))]),
        6 => P::Horz(vec![(Sz::Prop(1), f('.')), (Sz::Dyn, doc)]),
        7 => P::Vert(vec![
            (Sz::Fixed(1), f('-')),
            (Sz::Dyn, P::Style(7, Box::new(doc))),
            (Sz::Fixed(1), f('=')),
        ]),
        8 => P::Horz(vec![
            (Sz::Prop(1), P::Vert(vec![(Sz::Fixed(1), f('^')), (Sz::Dyn, doc)])),
            (Sz::Prop(1), f('信')),
        ]),
        9 => P::Vert(vec![
            (Sz::Prop(2), P::Horz(vec![(Sz::Fixed(1), f('^')), (Sz::Dyn, doc), (Sz::Fixed(1), f('$'))])),
            (Sz::Prop(1), f('信')),
        ]),
        _ => unreachable!(),
    }
}

/// A character of width zero: listed as a known finding, by these inputs and these outcomes.
fn u_combining() -> Universe {
    const TEXT: &str = "e\u{301}x";
    Universe {
        name: "combining-accent".into(),
        describe: format!("the text {:?} in a 9x1 window, as a document pane focused before its last character, and as a pane of dynamic width", TEXT),
        body: std::sync::Arc::new(|ch, st| {
            let dynamic = ch.pick(2) == 1;
            let p = if dynamic {
                P::Horz(vec![(Sz::Dyn, P::Doc(0)), (Sz::Prop(1), P::Fill('.'))])
            } else {
                P::Doc(0)
            };
            let opts = Opts { path: vec![], target: Target::Text(2), height: 0.0, strat: Strat::Full, set_focus: true };
            let contents = [content(t(TEXT), opts)];
            let sc = Scene { pane: &p, contents: &contents, sty: Sty::NONE, w: 9, h: 1 };
            let ctx = Ctx::new();
            st.add("states", 1);
            st.add("runs", 1);
            let win = match guarded(|| sc.run(&ctx, 0)) {
                Ok((win, Ok(()))) => win,
                Ok((_, Err(e))) => return Verdict::Bad(format!("error {:?}\n{}", e, sc.show())),
                Err(m) => return Verdict::Bad(format!("panic: {}\n{}", m, sc.show())),
            };
            st.add("transitions", win.calls.get());
            let x = win.writes.iter().find(|w| w.ch == 'x').map(|w| w.col);
            let msg = format!("'x' is shown in column {:?}, focus at {:?}\n{}", x, win.focus, sc.show());
            st.outcome(hash_of(&msg));
            let fine = match x {
                Some(c) => win.focus == [(0, c)],
                None => false,
            };
            if fine {
                Verdict::Ok
            } else if !dynamic && (x, &win.focus[..]) == (Some(2), &[(0, 1)]) {
                Verdict::BadNamed("combining-accent-focus", msg)
            } else if dynamic && (x, &win.focus[..]) == (None, &[(0, 1)]) {
                Verdict::BadNamed("combining-accent-dynamic-width", msg)
            } else {
                Verdict::Bad(msg)
            }
        }),
    }
}

fn word(s: &'static str) -> Proto {
    t(s)
}
/// A text of 900 columns.
fn t_long() -> Proto {
    static TEXT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    t(TEXT.get_or_init(|| "abcd信efgh".chars().cycle().take(4050).collect()))
}

fn c13(t: Tier) -> Vec<Universe> {
    let q = t == Tier::Quick;
    let ndocs = N_PDOC;
    vec![
        u_combining(),
        u_every_char(Aspect::Content),
        u_lines(if q { 6 } else { 7 }, Aspect::Content),
        u_widest(Aspect::Content),
        u_unseen(if q { 7 } else { 14 }),
        u_rows(t, Aspect::Content),
        pane_universe(
            "focus-heights",
            "documents of 0, 1, 3 and 70 lines focused on the first, a middle or the last line, at every focus height 0.00, 0.01 ... 1.00, in panes 1..=31 rows high (and 64, 100, 101, 255..257, 1000): alone, of dynamic width, of dynamic height above another",
            Aspect::Content,
            move |ch| {
                let n = [70, 3, 1, 0][ch.pick(4)];
                let at = match n {
                    0 | 1 => 0,
                    _ => [n / 2, 0, n - 1][ch.pick(3)],
                };
                let height = ch.pick(101) as f32 / 100.0;
                let h = match ch.pick(38) {
                    k if k < 31 => k as u32 + 1,
                    k => [64, 100, 101, 255, 256, 257, 1000][k - 31],
                };
                let r = (h - 1) as f64 * height as f64;
                if (r - r.floor() - 0.5).abs() < 1e-3 {
                    // (just between two rows)
                    return None;
                }
                let o = Opts {
                    path: if n == 0 { vec![] } else { vec![at] },
                    target: Target::Start,
                    height,
                    strat: Strat::Full,
                    set_focus: true,
                };
                let d = content(long_doc(n), o);
                let p = context([0, 5, 3][ch.pick(if q && h > 31 { 1 } else { 3 })], P::Doc(0));
                Some((p, vec![d], Sty::NONE, 4, h))
            },
        ),
        pane_universe(
            "long-documents",
            "documents of 300, 1000 (thorough: also 5000) lines, focused at 9 places, at 6 focus heights, in panes of 1, 2, 40, 299..301 and 1200 rows: 10 surroundings",
            Aspect::Content,
            move |ch| {
                let n = [300usize, 1000, 5000][ch.pick(if q { 2 } else { 3 })];
                let at = [0, 1, 39, n / 2, 255, 256, n - 40, n - 2, n - 1][ch.pick(9)];
                let h = [40, 1, 2, 299, 300, 301, 1200][ch.pick(7)];
                let o = Opts {
                    path: vec![at],
                    target: [Target::Start, Target::End][ch.pick(2)],
                    height: HEIGHTS[ch.pick(6)],
                    strat: Strat::Full,
                    set_focus: true,
                };
                let c = ch.pick(10);
                Some((context(c, P::Doc(0)), vec![content(long_doc(n), o)], Sty::NONE, 6, h))
            },
        ),
        pane_universe(
            "wide",
            "documents of about 4000 columns (words that flow, an array, lines, one text), focused at 4 places, at 21 widths (full, fixed or limited, 0 to 65535), in windows of 14 widths from 1 to 3000 columns: alone, of dynamic width, of dynamic height",
            Aspect::Content,
            move |ch| {
                const WORDS: [&str; 3] = ["abcdefg", "信念", "k"];
                let kind = ch.pick(4);
                let n = 800;
                let long = kind == 3;
                let doc = if long {
                    t_long()
                } else {
                    Proto::branch(template([1, 0, 2][kind]), (0..n).map(|i| self::word(WORDS[i % 3])).collect())
                };
                let at = [n / 2, 0, 3, n - 1][ch.pick(4)];
                let target = match (long, ch.pick(2)) {
                    (true, k) => Target::Text(at * 5 + k),
                    (false, k) => [Target::Start, Target::End][k],
                };
                let widths = [0u16, 7, 256, 257, 301, 520, 1030, 2500, 32768, 65535];
                let strat = match ch.pick(21) {
                    0 => Strat::Full,
                    k if k <= 10 => Strat::Fixed(widths[k - 1]),
                    k => Strat::NoMore(widths[k - 11]),
                };
                let o = Opts {
                    path: if long { vec![] } else { vec![at] },
                    target,
                    height: 0.5,
                    strat,
                    set_focus: true,
                };
                let w = [80u16, 1, 7, 127, 128, 129, 255, 256, 257, 300, 511, 600, 1000, 3000][ch.pick(14)];
                let h = [3, 1][ch.pick(2)];
                let p = context([0, 5, 3][ch.pick(3)], P::Doc(0));
                Some((p, vec![content(doc, o)], Sty::NONE, w, h))
            },
        ),
        pane_universe(
            "document-pane",
            "one document pane: 8 documents x every path and target x 6 focus heights x 5 width strategies x windows of {0,1,2,3,5,8,12} x {0,1,2,3,4,7}",
            Aspect::Content,
            move |ch| {
                let d = pdoc(ch.pick(ndocs));
                let o = gen_opts(
                    ch,
                    &d,
                    6,
                    &[Strat::Full, Strat::Fixed(3), Strat::Fixed(30), Strat::NoMore(4), Strat::NoMore(40)],
                )?;
                let w = [8, 5, 3, 2, 1, 12, 0][ch.pick(7)];
                let h = [3, 1, 4, 2, 7, 0][ch.pick(6)];
                Some((P::Doc(0), vec![content(d, o)], Sty::NONE, w, h))
            },
        ),
        pane_universe(
            "document-in-context",
            "10 surroundings (fixed, proportional and dynamic panes, nested) x 8 documents x every path and target x 3 focus heights x 3 width strategies x 6 windows",
            Aspect::Content,
            move |ch| {
                let c = ch.pick(10);
                let d = pdoc(ch.pick(ndocs));
                let o = gen_opts(ch, &d, 3, &[Strat::Full, Strat::Fixed(4), Strat::NoMore(5)])?;
                let (w, h) = [(9, 6), (4, 3), (12, 9), (3, 5), (6, 2), (5, 1)][ch.pick(6)];
                Some((context(c, P::Doc(0)), vec![content(d, o)], Sty::NONE, w, h))
            },
        ),
        pane_universe(
            "several-documents",
            "2 or 3 documents in dynamic, fixed and proportional panes, side by side or stacked, each with a focus of its own",
            Aspect::Content,
            move |ch| {
                let horz = ch.pick(2) == 0;
                let n = 2 + ch.pick(2);
                let nw = if n == 3 { 2 } else { 4 };
                let (w, h) = [(9, 6), (4, 3), (12, 9), (7, 1)][ch.pick(nw)];
                let nd = if q && n == 3 { 3 } else { 5 };
                let mut v = vec![];
                let mut contents = vec![];
                for i in 0..n {
                    let s = [Sz::Dyn, Sz::Prop(1), Sz::Fixed(3)][ch.pick(3)];
                    let d = pdoc([1, 3, 6, 0, 7][ch.pick(nd)]);
                    let target = [Target::Start, Target::End][ch.pick(2)];
                    let height = HEIGHTS[ch.pick(3)];
                    contents.push(content(
                        d,
                        Opts {
                            path: vec![],
                            target,
                            height,
                            strat: Strat::Full,
                            set_focus: i != 1 || ch.pick(2) == 0,
                        },
                    ));
                    v.push((s, P::Doc(i)));
                }
                let p = if horz { P::Horz(v) } else { P::Vert(v) };
                Some((p, contents, Sty::NONE, w, h))
            },
        ),
        pane_universe(
            "doc2-in-pane",
            "every document of depth 2 (14 templates, up to 2 children of 9 shapes) x every path and target, 3 heights, in a 5x3 and a 9x2 pane",
            Aspect::Content,
            move |ch| {
                let d = gen_doc2(ch, 2, 9);
                let o = gen_opts(ch, &d, 3, &[Strat::Full])?;
                let (w, h) = [(5, 3), (9, 2)][ch.pick(2)];
                let c = [0, 3, 5][ch.pick(3)];
                let p = context(c, P::Doc(0));
                let contents = vec![content(d, o)];
                // documents with an error somewhere may or may not show it
                if Grid::of(&p, &contents, Sty::NONE, w, h).errs.iter().any(|e| matches!(e, PErr::Doc(_))) {
                    return None;
                }
                Some((p, contents, Sty::NONE, w, h))
            },
        ),
    ]
}

// ---- C14 ------------------------------------------------------------------------------------

fn styled(ch: &mut Chooser, p: P, next: &mut u8) -> P {
    let mut p = p;
    for _ in 0..ch.pick(3) {
        p = P::Style(*next, Box::new(p));
        *next += 1;
    }
    p
}

fn c14(t: Tier) -> Vec<Universe> {
    let q = t == Tier::Quick;
    let mut v = vec![
        u_lines(if q { 6 } else { 7 }, Aspect::Styles),
        pane_universe(
            "styled-splits",
            "a split of 1..2 (thorough: 1..3) panes of 4 sizes, each wrapped in 0..2 styles and holding a fill, a document, a missing document or another (styled) split of two; the split itself and the window styled too",
            Aspect::Styles,
            move |ch| {
                let mut next = 40u8;
                let horz = ch.pick(2) == 0;
                let n = 1 + ch.pick(if q { 2 } else { 3 });
                let (w, h) = [(7, 5), (4, 3)][ch.pick(2)];
                let sty = [Sty::NONE, Sty::tok(63)][ch.pick(2)];
                let mut contents = vec![];
                let mut v = vec![];
                for i in 0..n {
                    let s = [Sz::Prop(1), Sz::Dyn, Sz::Fixed(3), Sz::Prop(2)][ch.pick(if n < 3 { 4 } else { 2 })];
                    if i == 1 && n == 3 {
                        // (two unequal neighbours of something simple)
                        v.push((s, if s == Sz::Dyn { doc_pane(1, &mut contents) } else { P::Fill('m') }));
                        continue;
                    }
                    let inner = if s == Sz::Dyn {
                        let k = [0, 1, 6, N_PDOC][ch.pick(if n < 3 { 4 } else { 2 })];
                        doc_pane(k, &mut contents)
                    } else {
                        match ch.pick(if n < 3 { 5 } else { 2 }) {
                            0 => P::Fill(fill_char(i)),
                            1 => doc_pane(0, &mut contents),
                            2 => doc_pane(N_PDOC, &mut contents),
                            3 => doc_pane(6, &mut contents),
                            _ => {
                                let a = P::Fill('信');
                                let a = styled(ch, a, &mut next);
                                let b = doc_pane(4, &mut contents);
                                let b = styled(ch, b, &mut next);
                                let sz = [Sz::Dyn, Sz::Prop(1)][ch.pick(2)];
                                let v = vec![(Sz::Fixed(1), a), (sz, b)];
                                if ch.pick(2) == 0 {
                                    P::Horz(v)
                                } else {
                                    P::Vert(v)
                                }
                            }
                        }
                    };
                    v.push((s, styled(ch, inner, &mut next)));
                }
                let p = if horz { P::Horz(v) } else { P::Vert(v) };
                let p = styled(ch, p, &mut next);
                Some((p, contents, sty, w, h))
            },
        ),
        pane_universe(
            "styled-documents",
            "10 surroundings x 8 documents x every path x start/end x 3 heights, with a styled window and a styled document pane",
            Aspect::Styles,
            move |ch| {
                let c = ch.pick(10);
                let d = pdoc(ch.pick(N_PDOC));
                let o = gen_opts(ch, &d, 3, &[Strat::Full, Strat::Fixed(4)])?;
                let (w, h) = [(9, 6), (4, 3)][ch.pick(2)];
                let doc = if ch.pick(2) == 0 {
                    P::Style(50, Box::new(P::Doc(0)))
                } else {
                    P::Doc(0)
                };
                Some((P::Style(51, Box::new(context(c, doc))), vec![content(d, o)], Sty::tok(63), w, h))
            },
        ),
    ];
    v.extend(u_nests(t, Aspect::Styles));
    v.push(u_rows(t, Aspect::Styles));
    v
}

// ---- C15 ------------------------------------------------------------------------------------

/// Every window call fails once; every document call fails once.
fn check_faults(sc: &Scene, st: &mut Stats) -> Result<bool, String> {
    let g = Grid::of(sc.pane, sc.contents, sc.sty, sc.w, sc.h);
    if g.open {
        return Ok(false);
    }
    if !g.errs.is_empty() {
        return check_scene(sc, Aspect::Content, st);
    }
    let ctx = Ctx::new();
    let (win, r) = sc.run(&ctx, 0);
    if let Err(e) = r {
        return Err(format!("error {:?}", e));
    }
    st.add("states", 1);
    st.add("runs", 1);
    let total = win.calls.get();
    for k in 1..=total {
        let ctx = Ctx::new();
        let (win, r) = sc.run(&ctx, k);
        st.add("runs", 1);
        st.add("faults injected", 1);
        st.add("transitions", win.calls.get() + ctx.calls.get());
        let fail = |m: String| format!("window call {} of {} fails: {}", k, total, m);
        match r {
            Err(e @ PaneError::PrettyWindowError(WErr(j))) if j == k => {
                if cause::<WErr>(&e).is_none() || !names(&e.to_string(), &[k as i64]) {
                    return Err(fail(format!("{:?} does not give its cause: {}", e, e)));
                }
            }
            Err(e) => return Err(fail(format!("reported as {:?}", e))),
            Ok(()) => return Err(fail("not reported".into())),
        }
        if win.after_failure.get() > 0 {
            return Err(fail(format!("{} more window calls were made", win.after_failure.get())));
        }
        compare_cells(&win, &g, Aspect::Styles, false).map_err(fail)?;
        for f in &win.focus {
            if !g.focus.contains(f) && !g.maybe_focus.contains(f) {
                return Err(fail(format!("wrong focus {:?}", f)));
            }
        }
        st.outcome(hash_of(&(k, total, win.writes.len())));
    }
    let total = ctx.calls.get();
    for k in 1..=total {
        for persistent in [false, true] {
            let ctx = Ctx::failing(k, persistent);
            let (win, r) = sc.run(&ctx, 0);
            st.add("runs", 1);
            st.add("faults injected", 1);
            st.add("transitions", win.calls.get() + ctx.calls.get());
            let fail = |m: String| format!("document call {} of {} fails: {}", k, total, m);
            match r {
                Err(e @ PaneError::PrintingError(ppp::PrintingError::PrettyDoc(DErr(j))))
                    if j == k || (persistent && j > k) =>
                {
                    if cause::<DErr>(&e).is_none() || !names(&e.to_string(), &[j as i64]) {
                        return Err(fail(format!("{:?} does not give its cause: {}", e, e)));
                    }
                }
                Err(e) => return Err(fail(format!("reported as {:?}", e))),
                Ok(()) => return Err(fail("not reported".into())),
            }
            compare_cells(&win, &g, Aspect::Styles, false).map_err(fail)?;
        }
    }
    Ok(true)
}

fn fault_universe(
    name: &str,
    describe: &str,
    make: impl Fn(&mut Chooser) -> Option<(P, Vec<Option<Content>>, Sty, u16, u32)> + Send + Sync + 'static,
) -> Universe {
    Universe {
        name: name.into(),
        describe: describe.into(),
        body: Arc::new(move |ch, st| {
            let (p, contents, sty, w, h) = match make(ch) {
                Some(x) => x,
                None => return Verdict::Skip,
            };
            let sc = Scene {
                pane: &p,
                contents: &contents,
                sty,
                w,
                h,
            };
            match check_faults(&sc, st) {
                Ok(false) => Verdict::Skip,
                Ok(true) => {
                    if st.want_sample {
                        st.samples.push(sc.show());
                    }
                    Verdict::Ok
                }
                Err(m) => Verdict::Bad(format!("{}\n{}", m, sc.show())),
            }
        }),
    }
}

/// Documents that cannot be printed, or not at the place asked for.
fn bad_content(k: usize) -> Option<Content> {
    let with = |path: Vec<usize>, target: Target| Opts {
        path,
        target,
        ..Opts::plain()
    };
    let bad_at = |n: N| Proto::branch(template(2), vec![t("ok"), t("ok2"), Proto::branch(n, vec![])]);
    match k {
        0 => content(pdoc(0), with(vec![7], Target::Start)),
        1 => content(pdoc(0), with(vec![1, 0], Target::Start)),
        2 => content(pdoc(0), with(vec![0], Target::Mark)),
        3 => content(pdoc(0), with(vec![], Target::Text(0))),
        4 => content(bad_at(N::Text), Opts::plain()),
        5 => content(bad_at(child(1)), Opts::plain()),
        6 => content(Proto::text(child(0), "x"), Opts::plain()),
        7 => content(
            Proto::branch(cats(vec![lit("x"), child(0), lit("y")]), vec![leaf(3)]),
            Opts::plain(),
        ),
        8 => content(pdoc(0), Opts::plain()), // fine
        _ => unreachable!(),
    }
}

fn c15(tier: Tier) -> Vec<Universe> {
    let q = tier == Tier::Quick;
    vec![
        fault_universe(
            "faults-in-splits",
            "a split of 1..3 panes of 4 sizes holding fills, documents or another split; every single window call and every single document call fails (once, or for good)",
            move |ch| {
                let horz = ch.pick(2) == 0;
                let n = 1 + ch.pick(3);
                let (w, h) = [(5, 3), (7, 2)][ch.pick(2)];
                let mut contents = vec![];
                let mut v = vec![];
                for i in 0..n {
                    let s = [Sz::Prop(1), Sz::Dyn, Sz::Fixed(2), Sz::Prop(2)][ch.pick(4)];
                    let inner = if s == Sz::Dyn {
                        let k = [0, 1, N_PDOC][ch.pick(3)];
                        doc_pane(k, &mut contents)
                    } else {
                        match ch.pick(4) {
                            0 => P::Fill(fill_char(i)),
                            1 => doc_pane(5, &mut contents),
                            2 => doc_pane(N_PDOC, &mut contents),
                            _ => {
                                let b = doc_pane(4, &mut contents);
                                let v = vec![(Sz::Fixed(1), P::Fill('信')), (Sz::Dyn, b), (Sz::Prop(1), P::Fill('x'))];
                                P::Style(9, Box::new(if ch.pick(2) == 0 { P::Horz(v) } else { P::Vert(v) }))
                            }
                        }
                    };
                    v.push((s, inner));
                }
                for c in contents.iter_mut().flatten() {
                    c.opts.set_focus = true;
                }
                let p = if horz { P::Horz(v) } else { P::Vert(v) };
                Some((p, contents, Sty::NONE, w, h))
            },
        ),
        fault_universe(
            "faults-in-rows",
            "rows and columns of 3 and 5 (thorough: also 8) panes that repeat a pattern of up to 4 from 9 kinds of panes; every single window and document call fails",
            move |ch| {
                let mut contents = vec![];
                let p = row_pane(ch, 4, if q { &[3, 5] } else { &[3, 5, 8] }, &mut contents);
                let (w, h) = [(12, 2), (4, 9)][ch.pick(2)];
                Some((p, contents, Sty::NONE, w, h))
            },
        ),
        fault_universe(
            "faults-by-focus",
            "10 surroundings x 8 documents x every path and target x 2 heights; every single window and document call fails",
            move |ch| {
                let c = ch.pick(10);
                let d = pdoc(ch.pick(N_PDOC));
                let o = gen_opts(ch, &d, 2, &[Strat::Full])?;
                let (w, h) = [(6, 4), (10, 7), (3, 2)][ch.pick(3)];
                Some((context(c, P::Doc(0)), vec![content(d, o)], Sty::NONE, w, h))
            },
        ),
        pane_universe(
            "misuse",
            "dynamic panes around every kind of notation (styled 0..2 times), alone or among other panes, nested once, in windows including empty ones",
            Aspect::Content,
            move |ch| {
                let horz = ch.pick(2) == 0;
                let n = 1 + ch.pick(3);
                let (w, h) = [(5, 3), (0, 0), (1, 1), (4, 0), (0, 4)][ch.pick(5)];
                let mut contents = vec![];
                let mut v = vec![];
                let mut next = 40;
                for _ in 0..n {
                    let s = [Sz::Dyn, Sz::Prop(1), Sz::Fixed(2)][ch.pick(3)];
                    let inner = match ch.pick(5) {
                        0 => P::Fill('a'),
                        1 => doc_pane(0, &mut contents),
                        2 => P::Horz(vec![(Sz::Dyn, doc_pane(2, &mut contents))]),
                        3 => P::Vert(vec![(Sz::Dyn, P::Fill('b'))]),
                        _ => P::Horz(vec![]),
                    };
                    v.push((s, if n < 3 { styled(ch, inner, &mut next) } else { inner }));
                }
                let p = if horz { P::Horz(v) } else { P::Vert(v) };
                Some((p, contents, Sty::NONE, w, h))
            },
        ),
        pane_universe(
            "bad-documents",
            "9 documents (bad path, missing mark or text, mismatched notation on the first or third line, text after end of line; one fine) in 1..3 panes of 3 sizes, horizontally and vertically",
            Aspect::Content,
            move |ch| {
                let horz = ch.pick(2) == 0;
                let n = 1 + ch.pick(3);
                let (w, h) = [(9, 9), (6, 2), (9, 1)][ch.pick(3)];
                let mut contents = vec![];
                let mut v = vec![];
                for i in 0..n {
                    let s = [Sz::Dyn, Sz::Prop(1), Sz::Fixed(2)][ch.pick(3)];
                    contents.push(bad_content(ch.pick(9)));
                    v.push((s, P::Doc(i)));
                }
                let p = if horz { P::Horz(v) } else { P::Vert(v) };
                // only as much of a document as is shown need be looked at
                let g = Grid::of(&p, &contents, Sty::NONE, w, h);
                if h < 9 && g.errs.iter().any(|e| matches!(e, PErr::Doc(_))) {
                    return None;
                }
                let sees_all = horz || (n == 1 && !matches!(&p, P::Vert(v) if matches!(v[0].0, Sz::Fixed(_))));
                if !sees_all && g.errs.iter().any(|e| matches!(e, PErr::Doc(_))) {
                    return None;
                }
                Some((p, contents, Sty::NONE, w, h))
            },
        ),
    ]
}

pub fn props() -> Vec<Prop> {
    fn p(id: &'static str, level: &'static str, universes: fn(Tier) -> Vec<Universe>) -> Prop {
        Prop {
            id,
            level,
            universes,
            assumptions: &["texts in panes consist of characters one or two columns wide (the window interface has no notion of zero-width characters)"],
        }
    }
    vec![
        p("C12", "model_checking", c12),
        p("C13", "model_checking", c13),
        p("C14", "model_checking", c14),
        p("C15", "model_checking", c15),
    ]
}
