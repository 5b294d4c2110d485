//! Trees of tens of thousands of nodes, compared step by step with a formula instead of a model tree.
//! Values are a symbolic number plus the breadth-first index of the node.
use crate::model::{Kids, Ord, Val};
use crate::sym::*;
use alloc::boxed::Box;
use alloc::vec::Vec;
#[allow(unused_imports)]
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

/// `Fan`: a root with n children, the last of which has a child. `Chain`: n levels, children on the
/// left, on the right or alternating. `Full`: a complete binary tree of n levels.
#[derive(Clone, Copy, PartialEq)]
pub enum Sh { Fan, Chain(usize), Full }
#[derive(Clone, Copy)]
pub struct G { pub sh: Sh, pub n: usize, pub base: u32, pub bin: bool }
impl G {
    /// A fan or a chain of param(0).
    pub fn pick_n() -> G { G { sh: [Sh::Fan, Sh::Chain(0)][choice(2)], n: param(0), base: v32(), bin: false } }
    /// A complete tree of param(1) levels or a chain of param(0): alternating or, unless param(3) is set, also straight.
    pub fn pick_b() -> G { let sh = [Sh::Full, Sh::Chain(2), Sh::Chain(0), Sh::Chain(1)][choice(if param(3) > 0 { 2 } else { 4 })]; G { sh, n: param((sh == Sh::Full) as u32), base: v32(), bin: true } }
    /// Keeps chains to param(2): breadth-first streams walk down from the root at every step, dropping a chain recurses.
    pub fn shallow(&mut self) { if let Sh::Chain(_) = self.sh { if param(2) > 0 { self.n = self.n.min(param(2)); } } }
    pub fn total(&self) -> usize { match self.sh { Sh::Fan => self.n + 2, Sh::Chain(_) => self.n, Sh::Full => (1 << self.n) - 1 } }
    pub fn val(&self, j: usize) -> u32 { self.base.wrapping_add(j as u32) }
    fn side(&self, d: usize) -> usize { match self.sh { Sh::Chain(0) => 0, Sh::Chain(1) => 1, _ => d & 1 } }
    pub fn depth(&self, j: usize) -> usize { match self.sh { Sh::Fan => (j > 0) as usize + (j > self.n) as usize, Sh::Chain(_) => j, Sh::Full => (j + 1).ilog2() as usize } }
    /// The node at depth `d` on the way to `j`.
    pub fn anc(&self, j: usize, d: usize) -> usize { match self.sh { Sh::Fan => [0, j.min(self.n), j][d], Sh::Chain(_) => d, Sh::Full => ((j + 1) >> (self.depth(j) - d)) - 1 } }
    /// The path segment from depth `d` to the next on the way to `j`.
    pub fn seg(&self, j: usize, d: usize) -> usize { match self.sh { Sh::Fan => if d == 0 { j.min(self.n) - 1 } else { 0 }, Sh::Chain(_) => self.side(d), Sh::Full => (self.anc(j, d + 1) + 1) & 1 } }
    pub fn leaf(&self, j: usize) -> bool { match self.sh { Sh::Fan => j > 0 && j != self.n, Sh::Chain(_) => j + 1 == self.n, Sh::Full => 2 * j + 1 >= self.total() } }
    /// Visits the nodes in the given order.
    pub fn walk(&self, ord: Ord, f: &mut dyn FnMut(usize)) {
        let t = self.total();
        match (self.sh, ord) {
            (_, Ord::Bfs) | (Sh::Fan, Ord::Pre) | (Sh::Chain(_), Ord::Pre) => for j in 0..t { f(j); },
            (Sh::Fan, _) => { for j in 1..self.n { f(j); } f(self.n + 1); f(self.n); f(0); }
            (Sh::Chain(_), Ord::Post) => for j in (0..t).rev() { f(j); },
            (Sh::Chain(_), _) => {
                for j in 0..t - 1 { if self.side(j) == 1 { f(j); } }
                f(t - 1);
                for j in (0..t - 1).rev() { if self.side(j) == 0 { f(j); } }
            }
            (Sh::Full, _) => self.down(0, ord, f),
        }
    }
    fn down(&self, j: usize, ord: Ord, f: &mut dyn FnMut(usize)) {
        if j >= self.total() { return; }
        if ord == Ord::Pre { f(j); }
        self.down(2 * j + 1, ord, f);
        if ord == Ord::In { f(j); }
        self.down(2 * j + 2, ord, f);
        if ord == Ord::Post { f(j); }
    }
    pub fn tree_n<V: From<u32>>(&self) -> Tree<V> {
        shard();
        let node = |j, children| Tree { value: self.val(j).into(), children };
        if self.sh == Sh::Fan {
            let mut kids = Vec::with_capacity(self.n);
            for j in 1..self.n { kids.push(node(j, Vec::new())); }
            kids.push(node(self.n, alloc::vec![node(self.n + 1, Vec::new())]));
            node(0, kids)
        } else {
            let mut t = node(self.n - 1, Vec::new());
            for j in (0..self.n - 1).rev() { t = node(j, alloc::vec![t]); }
            t
        }
    }
    pub fn tree_b<V: From<u32>>(&self) -> BinaryTree<V> {
        shard();
        if self.sh == Sh::Full { return self.full(0); }
        let mut t = BinaryTree { value: self.val(self.n - 1).into(), left: None, right: None };
        for j in (0..self.n - 1).rev() {
            let (l, r) = if self.side(j) == 0 { (Some(Box::new(t)), None) } else { (None, Some(Box::new(t))) };
            t = BinaryTree { value: self.val(j).into(), left: l, right: r };
        }
        t
    }
    fn full<V: From<u32>>(&self, j: usize) -> BinaryTree<V> {
        let kid = |k| if k < self.total() { Some(Box::new(self.full(k))) } else { None };
        BinaryTree { value: self.val(j).into(), left: kid(2 * j + 1), right: kid(2 * j + 2) }
    }
    /// `t` has this shape and the values `f` gives.
    pub fn same_n<V: Val>(&self, t: &Tree<V>, f: &dyn Fn(usize) -> u32, line: u32) {
        let node = |t: &Tree<V>, j: usize, kids: usize| { check(t.children.len() == kids, line); check_eq(t.value.val() as u64, f(j) as u64, line); };
        if self.sh == Sh::Fan {
            node(t, 0, self.n);
            for j in 1..=self.n { node(&t.children[j - 1], j, (j == self.n) as usize); }
            node(&t.children[self.n - 1].children[0], self.n + 1, 0);
        } else {
            let mut t = t;
            for j in 0..self.n { node(t, j, (j + 1 < self.n) as usize); if j + 1 < self.n { t = &t.children[0]; } }
        }
    }
    pub fn same_b<V: Val>(&self, t: &BinaryTree<V>, f: &dyn Fn(usize) -> u32, line: u32) {
        if self.sh == Sh::Full { return self.same_full(t, 0, f, line); }
        let mut t = t;
        for j in 0..self.n {
            check_eq(t.value.val() as u64, f(j) as u64, line);
            let (on, off) = if self.side(j) == 0 { (&t.left, &t.right) } else { (&t.right, &t.left) };
            check(off.is_none(), line);
            match on { None => { check(j + 1 == self.n, line); break; } Some(k) => { check(j + 1 < self.n, line); t = k; } }
        }
    }
    fn same_full<V: Val>(&self, t: &BinaryTree<V>, j: usize, f: &dyn Fn(usize) -> u32, line: u32) {
        check_eq(t.value.val() as u64, f(j) as u64, line);
        for (k, c) in [(2 * j + 1, &t.left), (2 * j + 2, &t.right)] {
            check(c.is_some() == (k < self.total()), line);
            if let Some(c) = c { self.same_full(c, k, f, line); }
        }
    }
    /// Nodes whose whole path and ancestry are compared.
    fn closely(&self, j: usize) -> bool { j % 16381 == 16380 || j + 1 == self.total() }
    fn anc_ok<V: Val>(&self, a: &[V], j: usize, line: u32) {
        let d = self.depth(j);
        check(a.len() == d + 1, line);
        check_eq(a[d].val() as u64, self.val(j) as u64, line);
        if d > 0 { check_eq(a[d - 1].val() as u64, self.val(self.anc(j, d - 1)) as u64, line); }
        if self.closely(j) { for k in 0..d { check_eq(a[k].val() as u64, self.val(self.anc(j, k)) as u64, line); } }
    }
    /// A path, behind `skip` leading segments.
    pub fn path_ok(&self, p: &[usize], skip: usize, j: usize, line: u32) {
        let d = self.depth(j);
        check(p.len() == d + skip, line);
        if d > 0 { check(p[skip + d - 1] == self.seg(j, d - 1), line); }
        if self.closely(j) { for k in 0..d { check(p[skip + k] == self.seg(j, k), line); } }
    }
    /// The iterator has yielded `from` nodes; now come the others, or the leaves among them.
    pub fn seq<I: Iterator>(&self, ord: Ord, mut it: I, from: usize, leaves: bool, line: u32) where I::Item: Val {
        let mut i = 0;
        self.walk(ord, &mut |j| { i += 1; if i > from && (!leaves || self.leaf(j)) {
            match it.next() { None => check(false, line), Some(x) => check_eq(x.val() as u64, self.val(j) as u64, line) }
        } });
        check(it.next().is_none(), line);
    }
    pub fn ancs<V: Val, S: StreamingIterator<Item = [V]>>(&self, ord: Ord, mut it: S, from: usize, leaves: bool, line: u32) {
        let mut i = 0;
        self.walk(ord, &mut |j| { i += 1; if i > from && (!leaves || self.leaf(j)) {
            match it.next() { None => check(false, line), Some(a) => self.anc_ok(a, j, line) }
        } });
        check(it.next().is_none(), line);
    }
    pub fn ctxs<V: Val, C: Kids, S: StreamingIterator<Item = TreeContext<V, C>>>(&self, ord: Ord, mut it: S, line: u32) {
        self.walk(ord, &mut |j| match it.next() {
            None => check(false, line),
            Some(c) => { self.anc_ok(c.ancestors(), j, line); self.path_ok(c.path(), 0, j, line); check(c.depth() == self.depth(j), line); }
        });
        check(it.next().is_none(), line);
    }
}
/// Runs the body with `$it` bound to a traversal in a chosen order and kind of access. Trees that outlive it are not
/// dropped: that recurses.
#[macro_export]
macro_rules! giants { ($name:ident $pick:ident $mk:ident; $($ord:ident $o:ident $r:ident $m:ident),*; $g:ident $at:ident $it:ident => $e:expr) => {
    pub fn $name() {
        use $crate::model::Ord;
        use $crate::sym::choice;
        let mut $g = $crate::giant::G::$pick();
        let mut ords = alloc::vec::Vec::new();
        $( ords.push(Ord::$ord); )*
        let $at = ords[choice(ords.len())];
        let how = choice(3);
        if $at == Ord::Bfs { $g.shallow(); }
        #[allow(unused_mut)]
        let mut t = core::mem::ManuallyDrop::new($g.$mk::<u32>());
        $( if $at == Ord::$ord { match how {
            0 => { #[allow(unused_mut)] let mut $it = core::mem::ManuallyDrop::into_inner(t).$o(); $e; }
            1 => { #[allow(unused_mut)] let mut $it = t.$r(); $e; }
            _ => { #[allow(unused_mut)] let mut $it = t.$m(); $e; }
        } return $crate::sym::cover(1); } )*
    }
} }
/// The children of a fan as a collection.
pub fn many_n(g: &G) -> Vec<Tree<u32>> { g.tree_n::<u32>().children }
pub fn many_b(g: &G) -> Vec<BinaryTree<u32>> {
    let node = |j, left| BinaryTree { value: g.val(j), left, right: None };
    shard();
    let mut o = Vec::new();
    for j in 1..g.n { o.push(node(j, None)); }
    o.push(node(g.n, Some(alloc::boxed::Box::new(node(g.n + 1, None)))));
    o
}
