//! The instrumented document: a `PrettyDoc` over `model::Node` that counts calls, can fail at any
//! chosen call, and monitors the calling contract.

use crate::model::{Node, Sty, C, L, N};
use partial_pretty_printer as ppp;
use ppp::{PrettyDoc, ValidNotation};
use std::cell::{Cell, RefCell};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct DErr(pub u64);
impl std::fmt::Display for DErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "document failure at call {}", self.0)
    }
}
impl std::error::Error for DErr {}

#[derive(Default)]
pub struct Ctx {
    pub calls: Cell<u64>,
    /// 1-based call that fails; 0 = none
    pub fail_at: Cell<u64>,
    /// every later call fails as well
    pub persistent: Cell<bool>,
    pub failed: Cell<bool>,
    pub breach: RefCell<Option<String>>,
    /// ids of nodes that were opened (asked for their content)
    pub track: Cell<bool>,
    /// check which conditions and labels are asked for (linear in the document per call)
    pub monitor: Cell<bool>,
    pub opened: RefCell<Vec<u32>>,
    pub far_calls: Cell<u64>,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx::default()
    }
    pub fn failing(k: u64, persistent: bool) -> Ctx {
        let c = Ctx::default();
        c.fail_at.set(k);
        c.persistent.set(persistent);
        c
    }
    fn call(&self, n: &Node) -> Result<(), DErr> {
        let k = self.calls.get() + 1;
        self.calls.set(k);
        if n.far {
            self.far_calls.set(self.far_calls.get() + 1);
        }
        let f = self.fail_at.get();
        if f != 0 && (k == f || (self.persistent.get() && k > f)) {
            self.failed.set(true);
            return Err(DErr(k));
        }
        Ok(())
    }
    fn open(&self, n: &Node) {
        if self.track.get() {
            let mut o = self.opened.borrow_mut();
            if !o.contains(&n.id) {
                o.push(n.id);
            }
        }
    }
    fn breach(&self, msg: impl FnOnce() -> String) {
        let mut b = self.breach.borrow_mut();
        if b.is_none() {
            *b = Some(msg());
        }
    }
}

/// Does the notation of this node use the condition / style label?
fn uses_cond(n: &N, c: C) -> bool {
    match n {
        N::Check(d, _, a, b) => *d == c || uses_cond(a, c) || uses_cond(b, c),
        N::Flat(a) | N::Indent(_, _, a) | N::Style(_, a) => uses_cond(a, c),
        N::Cat(a, b) | N::Alt(a, b) | N::Fold(a, b) => uses_cond(a, c) || uses_cond(b, c),
        N::Count(x, y, z) => uses_cond(x, c) || uses_cond(y, c) || uses_cond(z, c),
        _ => false,
    }
}
fn uses_label(n: &N, l: L) -> bool {
    match n {
        N::Style(k, a) => *k == l || uses_label(a, l),
        N::Indent(_, k, a) => *k == Some(l) || uses_label(a, l),
        N::Flat(a) => uses_label(a, l),
        N::Cat(a, b) | N::Alt(a, b) | N::Fold(a, b) | N::Check(_, _, a, b) => {
            uses_label(a, l) || uses_label(b, l)
        }
        N::Count(x, y, z) => uses_label(x, l) || uses_label(y, l) || uses_label(z, l),
        _ => false,
    }
}
/// A document reference. `CUSTOM`: overrides the optional sibling methods.
pub struct DRef<'d, const CUSTOM: bool> {
    pub ctx: &'d Ctx,
    pub node: &'d Node,
    pub root: &'d Node,
}
impl<'d, const X: bool> Clone for DRef<'d, X> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'d, const X: bool> Copy for DRef<'d, X> {}
impl<'d, const X: bool> std::fmt::Debug for DRef<'d, X> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "node{}", self.node.id)
    }
}

impl<'d, const X: bool> DRef<'d, X> {
    pub fn new(ctx: &'d Ctx, root: &'d Node) -> Self {
        DRef { ctx, node: root, root }
    }
    fn to(self, node: &'d Node) -> Self {
        DRef { node, ..self }
    }
    fn d_id(self) -> Result<u32, DErr> {
        self.ctx.call(self.node)?;
        Ok(self.node.id)
    }
    fn d_notation(self) -> Result<&'d ValidNotation<L, C>, DErr> {
        self.ctx.call(self.node)?;
        Ok(&self.node.valid)
    }
    fn d_condition(self, c: &C) -> Result<bool, DErr> {
        self.ctx.call(self.node)?;
        // The condition must occur somewhere: in this node's notation or its parent's.
        if self.ctx.monitor.get() && !cond_used_around(self.root, self.node, *c) {
            self.ctx.breach(|| {
                format!("condition({}) asked of a node for which no Check mentions it", c)
            });
        }
        Ok(self.node.cond(*c))
    }
    fn d_lookup_style(self, l: L) -> Result<Sty, DErr> {
        self.ctx.call(self.node)?;
        if self.ctx.monitor.get() && !uses_label(&self.node.n, l) {
            self.ctx.breach(|| {
                format!("lookup_style({}) asked of a node whose notation does not use that label", l)
            });
        }
        Ok(self.node.labels[l as usize])
    }
    fn d_node_style(self) -> Result<Sty, DErr> {
        self.ctx.call(self.node)?;
        Ok(self.node.node_style)
    }
    fn d_num_children(self) -> Result<Option<usize>, DErr> {
        self.ctx.call(self.node)?;
        self.ctx.open(self.node);
        Ok(self.node.num_children())
    }
    fn d_text(self) -> Result<&'d str, DErr> {
        self.ctx.call(self.node)?;
        self.ctx.open(self.node);
        match self.node.text {
            Some(t) => Ok(t),
            None => {
                self.ctx
                    .breach(|| "unwrap_text called on a node without text".to_string());
                Ok("")
            }
        }
    }
    fn d_child(self, i: usize) -> Result<Self, DErr> {
        self.ctx.call(self.node)?;
        self.ctx.open(self.node);
        match self.node.num_children() {
            Some(n) if i < n => Ok(self.to(&self.node.children[i])),
            n => {
                self.ctx
                    .breach(|| format!("unwrap_child({}) called where num_children is {:?}", i, n));
                Err(DErr(u64::MAX))
            }
        }
    }
    fn d_last(self) -> Result<Self, DErr> {
        self.ctx.call(self.node)?;
        self.ctx.open(self.node);
        match self.node.num_children() {
            Some(n) if n > 0 => Ok(self.to(&self.node.children[n - 1])),
            n => {
                self.ctx
                    .breach(|| format!("unwrap_last_child called where num_children is {:?}", n));
                Err(DErr(u64::MAX))
            }
        }
    }
    fn check_prev(&self, parent: &Self, i: usize) -> bool {
        let p = parent.node;
        let ok = match p.num_children() {
            Some(n) => i + 1 < n && std::ptr::eq(&p.children[i + 1], self.node),
            None => false,
        };
        if !ok {
            self.ctx.breach(|| {
                format!(
                    "unwrap_prev_sibling(parent, {}) called where self is not child {} of parent",
                    i,
                    i + 1
                )
            });
        }
        ok
    }
    fn d_prev(self, parent: Self, i: usize) -> Result<Self, DErr> {
        self.ctx.call(self.node)?;
        if self.check_prev(&parent, i) {
            Ok(self.to(&parent.node.children[i]))
        } else {
            Err(DErr(u64::MAX))
        }
    }
}

/// Is condition c mentioned by the node's own notation or by the notation of its parent?
fn cond_used_around(root: &Node, node: &Node, c: C) -> bool {
    if uses_cond(&node.n, c) {
        return true;
    }
    fn parent_of<'a>(at: &'a Node, node: &Node) -> Option<&'a Node> {
        for k in &at.children {
            if std::ptr::eq(k, node) {
                return Some(at);
            }
            if let Some(p) = parent_of(k, node) {
                return Some(p);
            }
        }
        None
    }
    match parent_of(root, node) {
        Some(p) => uses_cond(&p.n, c),
        None => false,
    }
}

macro_rules! common {
    () => {
        type Id = u32;
        type Style = Sty;
        type StyleLabel = L;
        type Condition = C;
        type Error = DErr;
        fn id(self) -> Result<u32, DErr> {
            self.d_id()
        }
        fn notation(self) -> Result<&'d ValidNotation<L, C>, DErr> {
            self.d_notation()
        }
        fn condition(self, c: &C) -> Result<bool, DErr> {
            self.d_condition(c)
        }
        fn lookup_style(self, l: L) -> Result<Sty, DErr> {
            self.d_lookup_style(l)
        }
        fn node_style(self) -> Result<Sty, DErr> {
            self.d_node_style()
        }
        fn num_children(self) -> Result<Option<usize>, DErr> {
            self.d_num_children()
        }
        fn unwrap_text(self) -> Result<&'d str, DErr> {
            self.d_text()
        }
        fn unwrap_child(self, i: usize) -> Result<Self, DErr> {
            self.d_child(i)
        }
    };
}

impl<'d> PrettyDoc<'d> for DRef<'d, true> {
    common!();
    fn unwrap_last_child(self) -> Result<Self, DErr> {
        self.d_last()
    }
    fn unwrap_prev_sibling(self, parent: Self, i: usize) -> Result<Self, DErr> {
        self.d_prev(parent, i)
    }
}
impl<'d> PrettyDoc<'d> for DRef<'d, false> {
    common!();
}
