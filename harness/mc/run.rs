//! Driving the real printer, and comparing it with the model.

use crate::doc::{Ctx, DErr, DRef};
use crate::model::*;
use partial_pretty_printer as ppp;
use ppp::{FocusedLine, Line, PrettyDoc, PrintingError, Segment, Width};

pub type PE = PrintingError<DErr>;

/// No document in the universes has this many lines; an iterator that yields more does not end.
pub const LINE_CAP: usize = 300_000;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct OSeg<'d> {
    pub s: &'d str,
    pub w: Width,
    pub sty: Sty,
}
pub type OLine<'d> = Vec<OSeg<'d>>;

pub struct Out<'d> {
    /// top to bottom
    pub above: Vec<OLine<'d>>,
    pub left: OLine<'d>,
    pub right: OLine<'d>,
    pub below: Vec<OLine<'d>>,
    pub above_err: Option<PE>,
    pub below_err: Option<PE>,
}

pub fn seg<'d, D>(s: &Segment<'d, D>) -> OSeg<'d>
where
    D: PrettyDoc<'d, Style = Sty>,
{
    OSeg {
        s: s.str,
        w: s.width,
        sty: s.style,
    }
}
pub fn oline<'d, D>(l: &Line<'d, D>) -> OLine<'d>
where
    D: PrettyDoc<'d, Style = Sty>,
{
    l.segments.iter().map(seg).collect()
}

thread_local! {
    /// Compare what a line says of itself with its segments.
    pub static CHECK_LINES: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// The width and the text of some segments, capped at the largest width.
fn sums<'d, D: PrettyDoc<'d, Style = Sty>>(v: &[Segment<'d, D>]) -> (Width, String) {
    let w: u64 = v.iter().map(|s| s.width as u64).sum();
    (w.min(Width::MAX as u64) as Width, v.iter().map(|s| s.str).collect())
}
fn check_line<'d, D: PrettyDoc<'d, Style = Sty, Error = DErr>>(l: &Line<'d, D>) {
    let (w, s) = sums(&l.segments);
    if l.width() != w || l.to_string() != s {
        panic!("{} the line {:?} of width {} says it is {:?} of width {}", crate::explore::SELF_REPORT, s, w, l.to_string(), l.width());
    }
}
fn check_focused<'d, D: PrettyDoc<'d, Style = Sty, Error = DErr>>(l: FocusedLine<'d, D>) {
    let (lw, ls) = sums(&l.left_segments);
    let (rw, rs) = sums(&l.right_segments);
    let w = lw.saturating_add(rw);
    let got = (l.left_width(), l.right_width(), l.width(), l.to_left_string(), l.to_right_string(), l.to_string());
    if got != (lw, rw, w, ls.clone(), rs.clone(), format!("{}{}", ls, rs)) {
        panic!("{} the focused line {:?} {:?} of width {} + {} says of itself {:?}", crate::explore::SELF_REPORT, ls, rs, lw, rw, got);
    }
    let l: Line<'d, D> = l.into();
    if sums(&l.segments) != (w, format!("{}{}", ls, rs)) {
        panic!("{} the focused line {:?} {:?} becomes the line {:?}", crate::explore::SELF_REPORT, ls, rs, l.to_string());
    }
    check_line(&l);
}

/// Print everything, focused at `path`/`target`.
pub fn print_all<'d, D>(
    doc: D,
    width: Width,
    path: &[usize],
    target: Target,
    root_style: Option<&Sty>,
) -> Result<Out<'d>, PE>
where
    D: PrettyDoc<'d, Style = Sty, Error = DErr>,
{
    let (up, focused, down) = ppp::pretty_print(doc, width, path, target.real(), root_style)?;
    let left = focused.left_segments.iter().map(seg).collect();
    let right = focused.right_segments.iter().map(seg).collect();
    if CHECK_LINES.get() {
        check_focused(focused);
    }
    fn drain<'d, D>(
        it: impl Iterator<Item = Result<Line<'d, D>, PE>>,
    ) -> (Vec<OLine<'d>>, Option<PE>)
    where
        D: PrettyDoc<'d, Style = Sty, Error = DErr>,
    {
        let mut lines = vec![];
        for l in it {
            match l {
                Ok(l) => {
                    if CHECK_LINES.get() {
                        check_line(&l);
                    }
                    lines.push(oline(&l))
                }
                Err(e) => return (lines, Some(e)),
            }
            if lines.len() > LINE_CAP {
                panic!("line iterator does not end");
            }
        }
        (lines, None)
    }
    let (mut above, above_err) = drain(up);
    above.reverse();
    let (below, below_err) = drain(down);
    Ok(Out {
        above,
        left,
        right,
        below,
        above_err,
        below_err,
    })
}

/// Characters with their styles: what is on a line, however it is cut into segments.
pub fn chars_o<'a, 'd: 'a>(l: &'a [OSeg<'d>]) -> impl Iterator<Item = (char, Sty)> + 'a {
    l.iter().flat_map(|s| {
        let sty = s.sty;
        s.s.chars().map(move |c| (c, sty))
    })
}
pub fn chars_m<'a, 'd: 'a>(l: &'a [Seg<'d>]) -> impl Iterator<Item = (char, Sty)> + 'a {
    l.iter().flat_map(|s| {
        let sty = s.sty;
        s.s.chars().map(move |c| (c, sty))
    })
}

pub fn same_line(o: &[OSeg], m: &[Seg]) -> bool {
    chars_o(o).eq(chars_m(m))
}
pub fn same_text(o: &[OSeg], m: &[Seg]) -> bool {
    chars_o(o).map(|x| x.0).eq(chars_m(m).map(|x| x.0))
}

pub fn count_chars(l: &[OSeg]) -> usize {
    l.iter().map(|s| s.s.chars().count()).sum()
}

pub fn show_o(l: &[OSeg]) -> String {
    let mut out = String::new();
    for s in l {
        if s.s.len() > 60 {
            out.push_str(&format!("<{} bytes>", s.s.len()));
        } else {
            out.push_str(s.s);
        }
    }
    format!("{:?}", out)
}
pub fn show_styled_o(l: &[OSeg]) -> String {
    l.iter()
        .map(|s| format!("{:?}{:?}", s.s, s.sty))
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn show_m(l: &[Seg]) -> String {
    let mut out = String::new();
    for s in l {
        if s.s.len() > 60 {
            out.push_str(&format!("<{} bytes>", s.s.len()));
        } else {
            out.push_str(s.s);
        }
    }
    format!("{:?}", out)
}
pub fn show_styled_m(l: &[Seg]) -> String {
    l.iter()
        .map(|s| format!("{:?}{:?}", s.s, s.sty))
        .collect::<Vec<_>>()
        .join(" ")
}

/// All lines of an output as one list (focused line joined).
pub fn all_lines<'d>(o: &Out<'d>) -> Vec<OLine<'d>> {
    let mut v = o.above.clone();
    let mut f = o.left.clone();
    f.extend(o.right.iter().copied());
    v.push(f);
    v.extend(o.below.iter().cloned());
    v
}

pub fn cmp_line(what: &str, i: usize, o: &[OSeg], m: &[Seg], styles: bool) -> Result<(), String> {
    if styles {
        if !same_line(o, m) {
            return Err(format!(
                "{} line {}: printed {} expected {}",
                what,
                i,
                show_styled_o(o),
                show_styled_m(m)
            ));
        }
    } else if !same_text(o, m) {
        return Err(format!(
            "{} line {}: printed {} expected {}",
            what,
            i,
            show_o(o),
            show_m(m)
        ));
    }
    Ok(())
}

/// Compare a complete, error-free output with the model layout. Returns (focus line, focus char).
pub fn cmp_all(o: &Out, laid: &Laid, styles: bool) -> Result<(usize, usize), String> {
    if let Some(e) = &o.above_err {
        return Err(format!("printing upward gave error {:?}", e));
    }
    if let Some(e) = &o.below_err {
        return Err(format!("printing downward gave error {:?}", e));
    }
    let total = o.above.len() + 1 + o.below.len();
    for (i, l) in o.above.iter().enumerate() {
        match laid.lines.get(i) {
            Some(m) => cmp_line("(above)", i, l, m, styles)?,
            None => break,
        }
    }
    let fi = o.above.len();
    if let Some(m) = laid.lines.get(fi) {
        let mut f = o.left.clone();
        f.extend(o.right.iter().copied());
        cmp_line("(focused)", fi, &f, m, styles)?;
    }
    for (i, l) in o.below.iter().enumerate() {
        match laid.lines.get(fi + 1 + i) {
            Some(m) => cmp_line("(below)", fi + 1 + i, l, m, styles)?,
            None => break,
        }
    }
    if total != laid.lines.len() {
        return Err(format!(
            "printed {} lines, expected {}",
            total,
            laid.lines.len()
        ));
    }
    Ok((fi, count_chars(&o.left)))
}

/// The first error of this type in the chain of causes.
pub fn cause<'a, T: std::error::Error + 'static>(e: &'a (dyn std::error::Error + 'static)) -> Option<&'a T> {
    let mut e = Some(e);
    while let Some(x) = e {
        if let Some(t) = x.downcast_ref::<T>() {
            return Some(t);
        }
        e = x.source();
    }
    None
}

/// Whether a message mentions all these numbers.
pub fn names(message: &str, numbers: &[i64]) -> bool {
    let found: Vec<i64> = message
        .split(|c: char| !c.is_ascii_digit() && c != '-')
        .filter_map(|w| w.parse().ok())
        .collect();
    numbers.iter().all(|n| found.contains(n))
}

/// The error kinds of the printer in model terms.
pub fn same_err(e: &PE, k: ErrK) -> bool {
    match (e, k) {
        (PE::TextNotationOnTextlessDoc, ErrK::TextOnTextless) => true,
        (PE::ChildIndexOutOfBounds { index, len }, ErrK::ChildOob(i, n)) => {
            *index == i && *len == n && names(&e.to_string(), &[i as i64, n as i64])
        }
        (PE::ChildNotationOnChildlessDoc, ErrK::ChildOnChildless) => true,
        (PE::CheckPosChildIndexOutOfBounds { index, len }, ErrK::CheckOob(i, n)) => {
            *index == i && *len == n && names(&e.to_string(), &[i as i64, n as i64])
        }
        (PE::CheckPosChildOnChildlessDoc, ErrK::CheckOnChildless) => true,
        (PE::CountNotationOnChildlessDoc, ErrK::CountOnChildless) => true,
        // The documentation does not name the error for a Fold on a text node.
        (PE::NumChildrenChanged, ErrK::FoldOnChildless) => true,
        (PE::CountNotationOnChildlessDoc, ErrK::FoldOnChildless) => true,
        (PE::ChildNotationOnChildlessDoc, ErrK::FoldOnChildless) => true,
        (PE::TextAfterEndOfLine, ErrK::TextAfterEol) => true,
        _ => false,
    }
}

pub fn refs<'d>(ctx: &'d Ctx, root: &'d Node) -> DRef<'d, true> {
    DRef::new(ctx, root)
}

/// All child-index paths of the document (to every node), in preorder.
pub fn all_paths(n: &Node) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn rec(n: &Node, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(p.clone());
        for (i, c) in n.children.iter().enumerate() {
            p.push(i);
            rec(c, p, out);
            p.pop();
        }
    }
    rec(n, &mut vec![], &mut out);
    out
}

pub fn node_at<'a>(n: &'a Node, path: &[usize]) -> Option<&'a Node> {
    let mut n = n;
    for &i in path {
        n = n.children.get(i)?;
    }
    Some(n)
}
