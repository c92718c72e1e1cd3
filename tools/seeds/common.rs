//! A small document type for demonstrations.
pub use partial_pretty_printer::notation_constructors::*;
pub use partial_pretty_printer::pane::*;
pub use partial_pretty_printer::*;
use std::cell::Cell;

pub type Note = Notation<&'static str, &'static str>;

/// The list of everything that was combined, outermost first.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct St(pub String);
impl Style for St {
    fn combine(a: &St, b: &St) -> St {
        St(format!("{}{}", a.0, b.0))
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Fail(pub u32);
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "call {} failed", self.0)
    }
}
impl std::error::Error for Fail {}

pub struct Node {
    pub id: u32,
    pub note: ValidNotation<&'static str, &'static str>,
    pub text: Option<String>,
    pub kids: Vec<Node>,
    pub conds: Vec<&'static str>,
    pub style: &'static str,
}

thread_local! {
    static NEXT: Cell<u32> = Cell::new(0);
    pub static CALLS: Cell<u32> = Cell::new(0);
    pub static FAIL_AT: Cell<u32> = Cell::new(0);
}

fn id() -> u32 {
    NEXT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    })
}

pub fn leaf(note: Note, text: &str) -> Node {
    let note = note.validate().unwrap();
    Node { id: id(), note, text: Some(text.into()), kids: vec![], conds: vec![], style: "" }
}
pub fn node(note: Note, kids: Vec<Node>) -> Node {
    let note = note.validate().unwrap();
    Node { id: id(), note, text: None, kids, conds: vec![], style: "" }
}
impl Node {
    pub fn cond(mut self, c: &'static str) -> Node {
        self.conds.push(c);
        self
    }
    pub fn styled(mut self, s: &'static str) -> Node {
        self.style = s;
        self
    }
}

fn call() -> Result<(), Fail> {
    CALLS.with(|c| c.set(c.get() + 1));
    let k = CALLS.with(|c| c.get());
    if FAIL_AT.with(|c| c.get()) == k {
        return Err(Fail(k));
    }
    Ok(())
}

impl<'d> PrettyDoc<'d> for &'d Node {
    type Id = u32;
    type Style = St;
    type StyleLabel = &'static str;
    type Condition = &'static str;
    type Error = Fail;
    fn id(self) -> Result<u32, Fail> {
        call()?;
        Ok(self.id)
    }
    fn notation(self) -> Result<&'d ValidNotation<&'static str, &'static str>, Fail> {
        call()?;
        Ok(&self.note)
    }
    fn condition(self, c: &&'static str) -> Result<bool, Fail> {
        call()?;
        Ok(self.conds.contains(c))
    }
    fn lookup_style(self, l: &'static str) -> Result<St, Fail> {
        call()?;
        Ok(St(format!("{}", l)))
    }
    fn node_style(self) -> Result<St, Fail> {
        call()?;
        Ok(St(self.style.into()))
    }
    fn num_children(self) -> Result<Option<usize>, Fail> {
        call()?;
        Ok(if self.text.is_some() { None } else { Some(self.kids.len()) })
    }
    fn unwrap_text(self) -> Result<&'d str, Fail> {
        call()?;
        Ok(self.text.as_ref().unwrap())
    }
    fn unwrap_child(self, i: usize) -> Result<Self, Fail> {
        call()?;
        Ok(&self.kids[i])
    }
}

pub fn print(doc: &Node, width: Width) -> Result<String, PrintingError<Fail>> {
    pretty_print_to_string(doc, width)
}

/// All lines, and the index of the focused one.
pub fn around(
    doc: &Node,
    width: Width,
    path: &[usize],
    target: FocusTarget,
) -> Result<(Vec<String>, usize), PrintingError<Fail>> {
    let (up, mid, down) = pretty_print(doc, width, path, target, None)?;
    let mut lines = vec![];
    for l in up {
        lines.push(l?.to_string());
    }
    lines.reverse();
    let at = lines.len();
    lines.push(mid.to_string());
    for l in down {
        lines.push(l?.to_string());
    }
    Ok((lines, at))
}

pub fn options() -> PrintingOptions {
    PrintingOptions {
        focus_path: vec![],
        focus_target: FocusTarget::Start,
        focus_height: 0.0,
        width_strategy: WidthStrategy::Full,
        set_focus: false,
    }
}

/// A window that remembers every character with its style.
pub struct Win {
    pub size: Size,
    pub cells: std::collections::BTreeMap<(Row, Col), (char, String)>,
    pub focus: Vec<Pos>,
    pub calls: u32,
    pub fail_at: u32,
}
pub fn win(width: Width, height: Height) -> Win {
    Win { size: Size { width, height }, cells: Default::default(), focus: vec![], calls: 0, fail_at: 0 }
}
impl Win {
    fn call(&mut self) -> Result<(), Fail> {
        self.calls += 1;
        if self.calls == self.fail_at {
            return Err(Fail(self.calls));
        }
        Ok(())
    }
    pub fn row(&self, r: Row) -> String {
        self.cells.range((r, 0)..(r + 1, 0)).map(|c| c.1 .0).collect()
    }
}
impl PrettyWindow for Win {
    type Error = Fail;
    type Style = St;
    fn size(&self) -> Result<Size, Fail> {
        Ok(self.size)
    }
    fn display_char(&mut self, ch: char, pos: Pos, style: &St, full: bool) -> Result<(), Fail> {
        self.call()?;
        let w = if full { 2 } else { 1 };
        assert!(pos.row < self.size.height && pos.col + w <= self.size.width, "outside of the window");
        assert!(self.cells.insert((pos.row, pos.col), (ch, style.0.clone())).is_none(), "written twice");
        Ok(())
    }
    fn set_focus(&mut self, pos: Pos) -> Result<(), Fail> {
        self.call()?;
        self.focus.push(pos);
        Ok(())
    }
}
