//! Work on demand: trees without bottom, nodes with endlessly many children, endless collections, cyclic references.
use crate::model::*;
use crate::sym::*;
use alloc::boxed::Box;
use alloc::vec::Vec;
use core::cell::Cell;
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;

/// Nodes whose children were asked for, trees taken out of a collection.
static mut ASKED: usize = 0;
fn tick() { unsafe { ASKED += 1 } }
fn asked() -> usize { unsafe { ASKED } }
fn reset() { unsafe { ASKED = 0 } }

/// A tree to be unfolded, for the model.
trait Src {
    type N: Clone;
    fn val(&self, n: &Self::N) -> u32;
    /// The first `max` children and their slots.
    fn kids(&self, n: &Self::N, max: usize) -> Vec<(usize, Self::N)>;
}
/// The first nodes of an unfolding in the order of a traversal, and how many nodes had to be visited for each.
struct Walk<'s, S: Src> { s: &'s S, k: usize, fuel: usize, ord: Ord, out: Vec<(Info, usize)>, seen: usize, over: bool }
impl<S: Src> Walk<'_, S> {
    fn emit(&mut self, n: &S::N, path: &[usize], anc: &[u32]) {
        let leaf = self.s.kids(n, 1).is_empty();
        self.out.push((Info { v: self.s.val(n), path: path.to_vec(), anc: anc.to_vec(), kids: Vec::new(), leaf }, self.seen));
        if self.out.len() == self.k { self.over = true; }
    }
    fn dfs(&mut self, n: &S::N, path: &mut Vec<usize>, anc: &mut Vec<u32>) {
        if path.len() > self.fuel { self.over = true; }
        if self.over { return; }
        self.seen += 1;
        anc.push(self.s.val(n));
        if self.ord == Ord::Pre { self.emit(n, path, anc); }
        let mut mine = self.ord == Ord::In;
        if !self.over {
            for (slot, c) in self.s.kids(n, self.k) {
                if mine && slot == 1 { mine = false; self.emit(n, path, anc); if self.over { return; } }
                path.push(slot);
                self.dfs(&c, path, anc);
                path.pop();
                if self.over { return; }
            }
            if mine || self.ord == Ord::Post { self.emit(n, path, anc); }
        }
        anc.pop();
    }
    fn bfs(&mut self, root: S::N) {
        let mut level = Vec::new();
        let mut anc = Vec::new();
        anc.push(self.s.val(&root));
        level.push((root, Vec::new(), anc));
        while !self.over && !level.is_empty() {
            for (n, p, a) in &level { self.seen += 1; self.emit(n, p, a); if self.over { return; } }
            let mut next = Vec::new();
            for (n, p, a) in &level {
                for (slot, c) in self.s.kids(n, self.k) {
                    if next.len() >= self.k { break; }
                    let (mut p, mut a) = (p.clone(), a.clone());
                    p.push(slot);
                    a.push(self.s.val(&c));
                    next.push((c, p, a));
                }
            }
            level = next;
        }
    }
}
/// The first `k` nodes; whether there are no more; nodes visited for each.
fn first<S: Src>(s: &S, root: S::N, ord: Ord, k: usize) -> (Vec<Info>, Vec<usize>, bool) {
    let mut w = Walk { s, k, fuel: k + 3, ord, out: Vec::new(), seen: 0, over: false };
    if ord == Ord::Bfs { w.bfs(root); } else { w.dfs(&root, &mut Vec::new(), &mut Vec::new()); }
    let (mut o, mut v) = (Vec::new(), Vec::new());
    for (i, n) in w.out { o.push(i); v.push(n); }
    (o, v, !w.over)
}
/// No more was looked at than `seen` nodes and, of each, some children ahead.
fn frugal(seen: usize, wide: usize) -> bool { asked() <= (seen + 1) * (wide + 1) + 1 }

/// Takes exactly the expected nodes, and the end if there is one.
macro_rules! take { ($it:expr, $e:ident, $wide:expr, |$x:ident, $i:ident| $body:block) => { {
    reset();
    let mut it = $it;
    for $i in 0..$e.0.len() {
        match it.next() { Some($x) => $body, None => chk!(false) }
        chk!(frugal($e.1[$i], $wide));
    }
    if $e.2 { chk!(it.next().is_none()); }
} } }
macro_rules! plain { ($it:expr, $e:ident, $wide:expr) => { take!($it, $e, $wide, |x, i| { chk_eq!(x.val(), $e.0[i].v); }) } }
macro_rules! anc { ($it:expr, $e:ident, $wide:expr) => { take!($it, $e, $wide, |x, i| { same_anc(x, &$e.0[i], line!()); }) } }
macro_rules! ctx { ($it:expr, $e:ident, $wide:expr, $base:expr) => { take!($it, $e, $wide, |c, i| {
    same_vals(c.ancestors(), &$e.0[i].anc, line!());
    same_path(c.path(), &$e.0[i].path, line!());
    chk!(c.depth() + $base == $e.0[i].path.len());
}) } }
fn only_leaves(e: &(Vec<Info>, Vec<usize>, bool)) -> (Vec<Info>, Vec<usize>, bool) {
    let (mut o, mut v) = (Vec::new(), Vec::new());
    for i in 0..e.0.len() { if e.0[i].leaf { o.push(e.0[i].clone()); v.push(e.1[i]); } }
    (o, v, e.2)
}

/// How a computed tree goes on below a node.
#[derive(Clone, Copy)]
pub struct Rule { w: usize, leaf: usize }
const ENDLESS: usize = usize::MAX;
fn child(v: u32, slot: usize) -> u32 { v.wrapping_mul(3).wrapping_add(slot as u32 + 1) }
/// A node that makes its children when they are asked for: `w` of them, the one in slot `leaf` without children.
pub struct L { v: u32, r: Rule, end: bool }
pub struct LKids { v: u32, r: Rule, next: usize, end: usize }
impl Iterator for LKids {
    type Item = L;
    fn next(&mut self) -> Option<L> {
        if self.next >= self.end { return None; }
        let s = self.next;
        self.next += 1;
        Some(L { v: child(self.v, s), r: self.r, end: s == self.r.leaf })
    }
}
impl OwnedTreeNode for L {
    type OwnedValue = u32;
    type OwnedChildren = LKids;
    fn get_value_and_children(self) -> (u32, LKids) { tick(); (self.v, LKids { v: self.v, r: self.r, next: 0, end: if self.end { 0 } else { self.r.w } }) }
}
pub struct B { v: u32, r: Rule, end: bool }
impl OwnedBinaryTreeNode for B {
    type OwnedValue = u32;
    fn get_value_and_children_binary(self) -> (u32, [Option<B>; 2]) {
        tick();
        let kid = |s: usize| if self.end || (self.r.w >> s) & 1 == 0 { None } else { Some(B { v: child(self.v, s), r: self.r, end: s == self.r.leaf }) };
        (self.v, [kid(0), kid(1)])
    }
}
/// The same nodes lent: their children live on after the traversal.
pub struct Lent<T>(LKids, core::marker::PhantomData<T>);
impl<'a> Iterator for Lent<&'a L> { type Item = &'a L; fn next(&mut self) -> Option<&'a L> { match self.0.next() { Some(c) => Some(Box::leak(Box::new(c))), None => None } } }
impl<'a> Iterator for Lent<&'a mut L> { type Item = &'a mut L; fn next(&mut self) -> Option<&'a mut L> { match self.0.next() { Some(c) => Some(Box::leak(Box::new(c))), None => None } } }
impl<T> core::iter::FusedIterator for Lent<T> where Lent<T>: Iterator {}
impl L { fn lend<T>(&self) -> (u32, Lent<T>) { tick(); (self.v, Lent(LKids { v: self.v, r: self.r, next: 0, end: if self.end { 0 } else { self.r.w } }, core::marker::PhantomData)) } }
impl<'a> BorrowedTreeNode<'a> for L { type BorrowedValue = u32; type BorrowedChildren = Lent<&'a L>; fn get_value_and_children_iter(&'a self) -> (u32, Lent<&'a L>) { self.lend() } }
impl<'a> MutBorrowedTreeNode<'a> for L { type MutBorrowedValue = u32; type MutBorrowedChildren = Lent<&'a mut L>; fn get_value_and_children_iter_mut(&'a mut self) -> (u32, Lent<&'a mut L>) { self.lend() } }
impl B { fn copy(&self) -> (u32, [Option<&'static mut B>; 2]) { let (v, [l, r]) = B { ..*self }.get_value_and_children_binary(); let f = |c: Option<B>| match c { Some(c) => Some(Box::leak(Box::new(c))), None => None }; (v, [f(l), f(r)]) } }
impl<'a> BorrowedBinaryTreeNode<'a> for B { type BorrowedValue = u32; fn get_value_and_children_binary_iter(&'a self) -> (u32, [Option<&'a B>; 2]) { let (v, [l, r]) = self.copy(); (v, [l.map(|b| &*b), r.map(|b| &*b)]) } }
impl<'a> MutBorrowedBinaryTreeNode<'a> for B { type MutBorrowedValue = u32; fn get_value_and_children_binary_iter_mut(&'a mut self) -> (u32, [Option<&'a mut B>; 2]) { let (v, [l, r]) = self.copy(); (v, [l.map(|b| b), r.map(|b| b)]) } }
/// The model of both.
struct Computed { r: Rule, bin: bool }
impl Src for Computed {
    type N = (u32, bool);
    fn val(&self, n: &(u32, bool)) -> u32 { n.0 }
    fn kids(&self, n: &(u32, bool), max: usize) -> Vec<(usize, (u32, bool))> {
        let mut o = Vec::new();
        if n.1 { return o; }
        let w = if self.bin { 2 } else { self.r.w };
        let mut s = 0;
        while s < w && o.len() < max { if !self.bin || (self.r.w >> s) & 1 == 1 { o.push((s, (child(n.0, s), s == self.r.leaf))); } s += 1; }
        o
    }
}
impl Computed {
    /// The tree down to level `d`.
    fn cut(&self, n: (u32, bool), d: usize) -> M {
        let mut m = M { v: n.0, ch: Vec::new() };
        if d > 0 { for (s, c) in self.kids(&n, 9) { m.ch.push((s, self.cut(c, d - 1))); } }
        m
    }
}
const NO_LEAF: usize = 77;
fn rule_n() -> Rule {
    match choice(8) {
        0 => Rule { w: 1, leaf: NO_LEAF }, 1 => Rule { w: 2, leaf: NO_LEAF }, 2 => Rule { w: 2, leaf: 0 }, 3 => Rule { w: 2, leaf: 1 },
        4 => Rule { w: 3, leaf: 1 }, 5 => Rule { w: ENDLESS, leaf: NO_LEAF }, 6 => Rule { w: ENDLESS, leaf: 0 }, _ => Rule { w: ENDLESS, leaf: 1 },
    }
}
fn rule_b() -> Rule { let w = 1 + choice(3); let leaf = choice(3); Rule { w, leaf: if leaf == 2 { NO_LEAF } else { leaf } } }

macro_rules! own { ($name:ident $rule:ident $node:ident $bin:literal; $($i:literal $ord:ident $o:ident),*; $no:literal) => {
    /// Traversals of owned computed trees deliver their first nodes.
    pub fn $name() {
        leak_check(true);
        let k = param(0);
        let r = $rule();
        let v = v32();
        let s = Computed { r, bin: $bin };
        let wide = if $bin { 2 } else if r.w == ENDLESS { 1 } else { r.w };
        let op = choice($no);
        let how = choice(5);
        $( if op == $i {
            let root = || $node { v, r, end: false };
            let e = first(&s, (v, false), Ord::$ord, k);
            let l = only_leaves(&e);
            match how {
                0 => plain!(root().$o(), e, wide),
                1 => anc!(root().$o().attach_ancestors(), e, wide),
                2 => ctx!(root().$o().attach_context(), e, wide, 0),
                3 => plain!(root().$o().leaves(), l, wide),
                _ => anc!(root().$o().attach_ancestors().leaves(), l, wide),
            }
            if e.0.len() == k { cover(1); }
        } )*
    }
} }
own!(c25_own_n rule_n L false; 0 Pre dfs_preorder, 1 Bfs bfs, 2 Post dfs_postorder; 3);
own!(c25_own_b rule_b B true; 0 Pre dfs_preorder, 1 Bfs bfs, 2 In dfs_inorder, 3 Post dfs_postorder; 4);

macro_rules! lent { ($name:ident $rule:ident $node:ident $bin:literal; $($i:literal $ord:ident $r:ident $m:ident),*; $no:literal) => {
    /// The same of borrowed and mutably borrowed computed trees.
    pub fn $name() {
        let k = param(0);
        let r = $rule();
        let v = v32();
        let s = Computed { r, bin: $bin };
        let wide = if $bin { 2 } else if r.w == ENDLESS { 1 } else { r.w };
        let op = choice($no);
        let how = choice(5);
        let mut root = $node { v, r, end: false };
        $( if op == $i {
            let e = first(&s, (v, false), Ord::$ord, k);
            let l = only_leaves(&e);
            match how {
                0 => { plain!(root.$r(), e, wide); plain!(root.$m(), e, wide); }
                1 => { anc!(root.$r().attach_ancestors(), e, wide); anc!(root.$m().attach_ancestors(), e, wide); }
                2 => { ctx!(root.$r().attach_context(), e, wide, 0); ctx!(root.$m().attach_context(), e, wide, 0); }
                3 => { plain!(root.$r().leaves(), l, wide); plain!(root.$m().leaves(), l, wide); }
                _ => { anc!(root.$r().attach_ancestors().leaves(), l, wide); anc!(root.$m().attach_ancestors().leaves(), l, wide); }
            }
            if e.0.len() == k { cover(1); }
        } )*
    }
} }
lent!(c25_lent_n rule_n L false; 0 Pre dfs_preorder_iter dfs_preorder_iter_mut, 1 Bfs bfs_iter bfs_iter_mut, 2 Post dfs_postorder_iter dfs_postorder_iter_mut; 3);
lent!(c25_lent_b rule_b B true; 0 Pre dfs_preorder_iter dfs_preorder_iter_mut, 1 Bfs bfs_iter bfs_iter_mut, 2 In dfs_inorder_iter dfs_inorder_iter_mut, 3 Post dfs_postorder_iter dfs_postorder_iter_mut; 4);

macro_rules! pipe { ($name:ident $lent:ident $rule:ident $node:ident $bin:literal $fold:ident $foldp:ident $pruned:ident $dot:tt) => {
    /// Pipelines over bottomless trees end where pruning ends them, and can be stepped in any case.
    pub fn $name() {
        leak_check(true);
        let r = $rule();
        let s = Computed { r, bin: $bin };
        let v = v32();
        let root = || $node { v, r, end: false };
        let d = choice(param(1));
        let op = if !$bin && r.w == ENDLESS { [0, 1, 2, 9][choice(4)] } else { choice(10) };
        let k = param(0);
        let wide = if $bin { 2 } else if r.w == ENDLESS { 1 } else { r.w };
        let want = |st: Stage| { let m = s.cut((v, false), d); stage(&m, &mut Vec::new(), 0, 0, $bin, st).unwrap() };
        reset();
        let frugally = |m: &M| chk!(frugal(m.size(), wide));
        let e = first(&s, (v, false), Ord::Pre, k);
        match op {
            0 => plain!(root().into_pipeline().map_tree(|v| v), e, wide),
            1 => take!(root().into_pipeline().map_path(|p: &[usize], v| mpp(p, v)), e, wide, |x, i| { chk_eq!(x, mpp(&e.0[i].path, e.0[i].v)); }),
            2 => plain!(root().into_pipeline().prune_depth(k).prune(|_| false).prune_path(|p, _| p.len() > k), e, wide),
            3 => { let m = want(Stage::None); same(&enc(&root().prune_depth(d)), &m.enc($bin), line!()); frugally(&m); }
            4 => { let m = want(Stage::None); same_opt(root().prune_path(|p, _| p.len() > d).map(|t| enc(&t)), Some(m.enc($bin)), line!()); frugally(&m); }
            5 => { let m = want(Stage::Map); same_opt(root().into_pipeline().map_tree(mp).prune_depth(d).collect_tree().map(|t| enc(&t)), Some(m.enc($bin)), line!()); frugally(&m); }
            6 => { let m = want(Stage::MapPath); same_opt(root().into_pipeline().prune_depth(d).map_path(|p: &[usize], v| mpp(p, v)).collect_tree().map(|t| enc(&t)), Some(m.enc($bin)), line!()); frugally(&m); }
            7 => { let m = want(Stage::None); same_opt(root().into_pipeline().prune_depth(d).fold_tree($fold), Some(m.enc($bin)), line!()); frugally(&m); }
            8 => {
                // prune by value: level d is the first with values of 2^d - 1 and more
                let bound = (1u32 << d) - 1;
                let t = $node { v: 0, r, end: false };
                let m = pruned(&s, (0, false), bound);
                same_opt(t.prune(|v| *v >= bound).map(|t| enc(&t)), m.as_ref().map(|m| m.enc($bin)), line!());
                if let Some(m) = m { frugally(&m); }
            }
            _ => {
                let mut p = Vec::new();
                let mut at = (v, false);
                for _ in 0..d { match s.kids(&at, 3).pop() { Some((slot, c)) => { p.push(slot); at = c; } None => break } }
                match root().at_path(&p) { Some(t) => chk_eq!(t.v, at.0), None => chk!(false) }
                chk!(frugal(p.len() + 1, wide));
            }
        }
        cover(1);
    }
    /// The same of trees that are borrowed.
    pub fn $lent() {
        let r = $rule();
        let s = Computed { r, bin: $bin };
        let v = v32();
        let mut root = $node { v, r, end: false };
        let d = choice(param(1));
        let op = if !$bin && r.w == ENDLESS { choice(3) } else { choice(9) };
        let k = param(0);
        let wide = if $bin { 2 } else if r.w == ENDLESS { 1 } else { r.w };
        let e = first(&s, (v, false), Ord::Pre, k);
        let want = |st: Stage| { let m = s.cut((v, false), d); stage(&m, &mut Vec::new(), 0, 0, $bin, st).unwrap() };
        macro_rules! both { ($want:expr, $x:ident => $ref:expr, $mut:expr) => { {
            let m = $want;
            reset();
            { let $x = &root; same_opt($ref, Some(m.enc($bin)), line!()); }
            chk!(frugal(m.size(), wide));
            reset();
            { let $x = &mut root; same_opt($mut, Some(m.enc($bin)), line!()); }
            chk!(frugal(m.size(), wide));
        } } }
        match op {
            0 => { plain!(root.into_pipeline_ref().map_tree(|v| v), e, wide); plain!(root.into_pipeline_mut().map_tree(|v| v), e, wide); }
            1 => { plain!(root.into_pipeline_ref().prune_depth(k).prune(|_| false).prune_path(|p, _| p.len() > k), e, wide); plain!(root.into_pipeline_mut().prune_depth(k).prune(|_| false).prune_path(|p, _| p.len() > k), e, wide); }
            2 => {
                let mut p = Vec::new();
                let mut at = (v, false);
                for _ in 0..d { match s.kids(&at, 3).pop() { Some((slot, c)) => { p.push(slot); at = c; } None => break } }
                reset();
                match root.at_path_ref(&p) { Some(t) => chk_eq!(t.v, at.0), None => chk!(false) }
                chk!(frugal(p.len() + 1, wide));
                reset();
                match root.at_path_mut(&p) { Some(t) => chk_eq!(t.v, at.0), None => chk!(false) }
                chk!(frugal(p.len() + 1, wide));
            }
            3 => both!(want(Stage::None), x => Some(enc(&x.prune_depth_ref(d))), Some(enc(&x.prune_depth_mut(d)))),
            4 => both!(want(Stage::None), x => x.prune_path_ref(|p, _| p.len() > d).map(|t| enc(&t)), x.prune_path_mut(|p, _| p.len() > d).map(|t| enc(&t))),
            5 => both!(want(Stage::Map), x => x.into_pipeline_ref().map_tree(mp).prune_depth(d).collect_tree().map(|t| enc(&t)), x.into_pipeline_mut().map_tree(mp).prune_depth(d).collect_tree().map(|t| enc(&t))),
            6 => both!(want(Stage::MapPath), x => x.into_pipeline_ref().prune_depth(d).map_path(|p: &[usize], v| mpp(p, v)).collect_tree().map(|t| enc(&t)), x.into_pipeline_mut().prune_depth(d).map_path(|p: &[usize], v| mpp(p, v)).collect_tree().map(|t| enc(&t))),
            7 => both!(want(Stage::None), x => x.into_pipeline_ref().prune_depth(d).fold_tree($fold), x.into_pipeline_mut().prune_depth(d).fold_tree($fold)),
            _ => both!(want(Stage::None), x => x.into_pipeline_ref().prune_path(|p, _| p.len() > d).fold_tree($fold), x.into_pipeline_mut().prune_path(|p, _| p.len() > d).fold_tree($fold)),
        }
        cover(1);
    }
} }
/// What is left after pruning everything from `bound` up (values grow downwards).
fn pruned(s: &Computed, n: (u32, bool), bound: u32) -> Option<M> {
    if n.0 >= bound { return None; }
    let mut m = M { v: n.0, ch: Vec::new() };
    for (slot, c) in s.kids(&n, 9) { if let Some(c) = pruned(s, c, bound) { let slot = if s.bin { slot } else { m.ch.len() }; m.ch.push((slot, c)); } }
    Some(m)
}
pipe!(c25_pipe_n c25_lpipe_n rule_n L false fold_n foldp_n pruned .);
pipe!(c25_pipe_b c25_lpipe_b rule_b B true fold_b foldp_b pruned .);

/// Nodes that refer to each other freely; their unfolding is a tree, without bottom where there is a cycle.
pub struct G<'a> { v: u32, ch: Cell<[Option<&'a G<'a>>; 2]> }
impl<'a> BorrowedTreeNode<'a> for G<'a> {
    type BorrowedValue = &'a u32;
    type BorrowedChildren = core::iter::Flatten<core::array::IntoIter<Option<&'a G<'a>>, 2>>;
    fn get_value_and_children_iter(&'a self) -> (&'a u32, Self::BorrowedChildren) { tick(); (&self.v, self.ch.get().into_iter().flatten()) }
}
pub struct H<'a> { v: u32, ch: Cell<[Option<&'a H<'a>>; 2]> }
impl<'a> BorrowedBinaryTreeNode<'a> for H<'a> {
    type BorrowedValue = &'a u32;
    fn get_value_and_children_binary_iter(&'a self) -> (&'a u32, [Option<&'a H<'a>>; 2]) { tick(); (&self.v, self.ch.get()) }
}
struct Graph { v: Vec<u32>, ch: Vec<[usize; 2]>, bin: bool }
impl Src for Graph {
    type N = usize;
    fn val(&self, n: &usize) -> u32 { self.v[*n] }
    fn kids(&self, n: &usize, max: usize) -> Vec<(usize, usize)> {
        let mut o = Vec::new();
        for s in 0..2 { let c = self.ch[*n][s]; if c < self.v.len() && o.len() < max { let slot = if self.bin { s } else { o.len() }; o.push((slot, c)); } }
        o
    }
}
fn any_graph(n: usize, bin: bool) -> Graph {
    let mut g = Graph { v: Vec::new(), ch: Vec::new(), bin };
    for _ in 0..n {
        g.v.push(v32());
        let a = choice(n + 1);
        let b = if !bin && a == n { n } else { choice(n + 1) };
        g.ch.push([a, b]);
    }
    g
}
macro_rules! graph { ($name:ident $node:ident $bin:literal; $($i:literal $ord:ident $r:ident),*; $no:literal) => {
    /// Traversals of borrowed nodes that may refer back to earlier ones.
    pub fn $name() {
        leak_check(true);
        let k = param(2);
        let n = 1 + choice(param(3));
        let g = any_graph(n, $bin);
        let mut nodes = Vec::new();
        for i in 0..n { nodes.push($node { v: g.v[i], ch: Cell::new([None, None]) }); }
        for i in 0..n { nodes[i].ch.set([nodes.get(g.ch[i][0]), nodes.get(g.ch[i][1])]); }
        let root = &nodes[0];
        let op = choice($no);
        $( if op == $i {
            let e = first(&g, 0, Ord::$ord, k);
            let l = only_leaves(&e);
            plain!(root.$r(), e, 2);
            anc!(root.$r().attach_ancestors(), e, 2);
            ctx!(root.$r().attach_context(), e, 2, 0);
            plain!(root.$r().leaves(), l, 2);
            anc!(root.$r().attach_ancestors().leaves(), l, 2);
            cover(if e.0.len() == k { 1 } else { 2 });
        } )*
    }
} }
graph!(c25_graph_n G false; 0 Pre dfs_preorder_iter, 1 Bfs bfs_iter, 2 Post dfs_postorder_iter; 3);
graph!(c25_graph_b H true; 0 Pre dfs_preorder_iter, 1 Bfs bfs_iter, 2 In dfs_inorder_iter, 3 Post dfs_postorder_iter; 4);

/// Endlessly many trees, of two shapes in turn.
#[derive(Clone)]
pub struct Many<'m> { m: [&'m M; 2], i: usize }
fn nth(m: [&M; 2], i: usize) -> M { m[i & 1].clone() }
macro_rules! many { ($ty:ident $mk:ident $it:ident $round:ident $tr:ident $rtr:ident) => {
    pub struct $it<'m>(Many<'m>);
    impl $tr<$ty<u32>> for $it<'_> {}
    /// The same, borrowed.
    pub struct $round<'m>(&'m [$ty<u32>; 2], usize);
    impl<'m> Iterator for $round<'m> {
        type Item = &'m $ty<u32>;
        fn next(&mut self) -> Option<&'m $ty<u32>> { tick(); self.1 += 1; Some(&self.0[(self.1 - 1) & 1]) }
    }
    impl<'m> $rtr<'m, $ty<u32>> for $round<'m> {}
    impl Iterator for $it<'_> {
        type Item = $ty<u32>;
        fn next(&mut self) -> Option<$ty<u32>> { tick(); self.0.i += 1; Some($mk(self.0.m[(self.0.i - 1) & 1])) }
    }
} }
many!(Tree mk_n ManyN RoundN OwnedIntoIteratorOfTrees BorrowedIntoIteratorOfTrees);
many!(BinaryTree mk_b ManyB RoundB OwnedIntoIteratorOfBinaryTrees BorrowedIntoIteratorOfBinaryTrees);
macro_rules! coll { ($name:ident $ename:ident $any:ident $it:ident $round:ident $bin:literal $fold:ident $foldp:ident [$($tf:tt)*]; $($i:literal $ord:ident $o:ident $r:ident),*; $no:literal) => {
    /// Traversals of endless collections, owned and borrowed.
    pub fn $name() {
        leak_check(true);
        let k = param(4);
        let (a, b) = ($any(param(5)), $any(param(5)));
        let op = choice($no);
        let mut each = Vec::new();
        for i in 0..k { each.push(nth([&a, &b], i)); }
        $( if op == $i {
            let mut o = order_each(&each, $bin, Ord::$ord);
            o.truncate(k);
            let mut seen = Vec::new();
            for i in &o { seen.push(i.path[0] + 1); }
            let e = (o, seen, false);
            let many = || $it(Many { m: [&a, &b], i: 0 });
            plain!(many().$o(), e, 0);
            ctx!(many().$o().attach_context(), e, 0, 1);
            let two = [many().next().unwrap(), many().nth(1).unwrap()];
            plain!($round(&two, 0).$r(), e, 0);
            ctx!($round(&two, 0).$r().attach_context(), e, 0, 1);
        } )*
        cover(1);
    }
    /// *_each operations and at_path on endless collections.
    pub fn $ename() {
        leak_check(true);
        let k = param(4);
        let (a, b) = ($any(param(5)), $any(param(5)));
        let t = v32();
        let d = choice(2);
        let many = || $it(Many { m: [&a, &b], i: 0 });
        let two = [many().next().unwrap(), many().nth(1).unwrap()];
        let op = choice(8);
        if op == 7 {
            reset();
            let i = choice(k);
            let mut p = Vec::new();
            p.push(i);
            same_opt(many().at_path(&p).map(|t| enc(&t)), Some(nth([&a, &b], i).enc($bin)), line!());
            chk!(frugal(i + 1, 0));
            same_opt($round(&two, 0).at_path_ref(&p).map(|t| enc(t)), Some(nth([&a, &b], i).enc($bin)), line!());
            cover(1);
            return;
        }
        let mut f = Vec::new();
        for i in 0..k { f.push((i, nth([&a, &b], i))); }
        // roots stay: what is pruned lies below them
        let st = match op { 0 => Stage::Map, 1 => Stage::MapPath, 2 => Stage::Depth(d), _ => Stage::None };
        let r = stage_each(&f, 0, $bin, st);
        let mut want = Vec::new();
        for (i, m) in &r { let mut p = Vec::new(); p.push(*i); want.push(if op == 6 { m.encp(Some(*i), $bin) } else { m.enc($bin) }); }
        macro_rules! same_each { ($it2:expr, $w:expr) => { {
            reset();
            let mut it = $it2;
            for i in 0..k {
                match it.next() { Some(x) => same(&$w(x), &want[i], line!()), None => chk!(false) }
                chk!(frugal(i + 1, 0));
            }
        } } }
        match op {
            0 => { same_each!(many().map_each(mp), |x| enc(&x)); same_each!($round(&two, 0).map_each_ref(|v| mp(*v)), |x| enc(&x)); }
            1 => { same_each!(many().map_path_each(|p: &[usize], v| mpp(p, v)), |x| enc(&x)); same_each!($round(&two, 0).map_path_each_ref(|p: &[usize], v| mpp(p, *v)), |x| enc(&x)); }
            2 => { same_each!(many().prune_depth_each $($tf)* (d), |x| enc(&x)); same_each!($round(&two, 0).prune_depth_each_ref(d), |x| enc(&x)); }
            3 => { same_each!(many().prune_each(|_| false), |x| enc(&x)); same_each!($round(&two, 0).prune_each_ref(|_| false), |x| enc(&x)); }
            4 => { same_each!(many().prune_path_each(|_, _| false), |x| enc(&x)); same_each!($round(&two, 0).prune_path_each_ref(|_, _| false), |x| enc(&x)); }
            5 => { same_each!(many().fold_each($fold), |x| x); }
            _ => { same_each!(many().fold_path_each($foldp), |x| x); }
        }
        let _ = t;
        cover(1);
    }
} }
coll!(c25_coll_n c25_each_n any_n ManyN RoundN false fold_n foldp_n [::<fn()>]; 0 Pre dfs_preorder_each dfs_preorder_each_iter, 1 Bfs bfs_each bfs_each_iter, 2 Post dfs_postorder_each dfs_postorder_each_iter; 3);
coll!(c25_coll_b c25_each_b any_b ManyB RoundB true fold_b foldp_b []; 0 Pre dfs_preorder_each dfs_preorder_each_iter, 1 Bfs bfs_each bfs_each_iter, 2 In dfs_inorder_each dfs_inorder_each_iter, 3 Post dfs_postorder_each dfs_postorder_each_iter; 4);
entries!(c25_lent_n, c25_lent_b, c25_lpipe_n, c25_lpipe_b, c25_own_n, c25_own_b, c25_pipe_n, c25_pipe_b, c25_graph_n, c25_graph_b, c25_coll_n, c25_coll_b, c25_each_n, c25_each_b);
