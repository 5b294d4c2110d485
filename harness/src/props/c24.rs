//! The traversals do not recurse: the call stack they use does not grow with the size of the tree.
use crate::model::*;
use crate::sym::*;
use alloc::boxed::Box;
use alloc::vec::Vec;
use core::mem::forget;
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;
/// Nodes that record the depth of the call stack whenever the library visits them, or asks for the next child.
pub struct D { v: u32, kids: Vec<D> }
pub struct Kids24<I>(I);
impl<I: Iterator> Iterator for Kids24<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { stack_mark(); self.0.next() } }
impl<I: core::iter::FusedIterator> core::iter::FusedIterator for Kids24<I> {}
impl OwnedTreeNode for D { type OwnedValue = u32; type OwnedChildren = Kids24<alloc::vec::IntoIter<D>>; fn get_value_and_children(self) -> (u32, Self::OwnedChildren) { stack_mark(); (self.v, Kids24(self.kids.into_iter())) } }
impl<'a> BorrowedTreeNode<'a> for D { type BorrowedValue = &'a u32; type BorrowedChildren = Kids24<core::slice::Iter<'a, D>>; fn get_value_and_children_iter(&'a self) -> (&'a u32, Self::BorrowedChildren) { stack_mark(); (&self.v, Kids24(self.kids.iter())) } }
impl<'a> MutBorrowedTreeNode<'a> for D { type MutBorrowedValue = &'a mut u32; type MutBorrowedChildren = Kids24<core::slice::IterMut<'a, D>>; fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut u32, Self::MutBorrowedChildren) { stack_mark(); (&mut self.v, Kids24(self.kids.iter_mut())) } }
pub struct E { v: u32, kids: [Option<Box<E>>; 2] }
impl OwnedBinaryTreeNode for E { type OwnedValue = u32; fn get_value_and_children_binary(self) -> (u32, [Option<E>; 2]) { stack_mark(); let [l, r] = self.kids; (self.v, [l.map(|b| *b), r.map(|b| *b)]) } }
impl<'a> BorrowedBinaryTreeNode<'a> for E { type BorrowedValue = &'a u32; fn get_value_and_children_binary_iter(&'a self) -> (&'a u32, [Option<&'a E>; 2]) { stack_mark(); (&self.v, [self.kids[0].as_deref(), self.kids[1].as_deref()]) } }
impl<'a> MutBorrowedBinaryTreeNode<'a> for E { type MutBorrowedValue = &'a mut u32; fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut u32, [Option<&'a mut E>; 2]) { stack_mark(); let [l, r] = &mut self.kids; (&mut self.v, [l.as_deref_mut(), r.as_deref_mut()]) } }
fn mk_d(m: &M) -> D { let mut kids = Vec::with_capacity(m.ch.len()); for c in &m.ch { kids.push(mk_d(&c.1)); } D { v: m.v, kids } }
fn mk_e(m: &M) -> E { E { v: m.v, kids: [m.slot(0).map(|c| Box::new(mk_e(c))), m.slot(1).map(|c| Box::new(mk_e(c)))] } }
fn mks_d(f: &[M]) -> Vec<D> { let mut o = Vec::with_capacity(f.len()); for m in f { o.push(mk_d(m)); } o }
fn mks_e(f: &[M]) -> Vec<E> { let mut o = Vec::with_capacity(f.len()); for m in f { o.push(mk_e(m)); } o }
/// A source of trees that records the stack as well.
struct Src24<I>(I);
impl<I: Iterator> Iterator for Src24<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { stack_mark(); self.0.next() } }
impl<T: OwnedTreeNode> OwnedIntoIteratorOfTrees<T> for Src24<alloc::vec::IntoIter<T>> {}
impl<T: OwnedBinaryTreeNode> OwnedIntoIteratorOfBinaryTrees<T> for Src24<alloc::vec::IntoIter<T>> {}
impl<'a, T: BorrowedTreeNode<'a>> BorrowedIntoIteratorOfTrees<'a, T> for Src24<core::slice::Iter<'a, T>> {}
impl<'a, T: BorrowedBinaryTreeNode<'a>> BorrowedIntoIteratorOfBinaryTrees<'a, T> for Src24<core::slice::Iter<'a, T>> {}
impl<'a, T: MutBorrowedTreeNode<'a>> MutBorrowedIntoIteratorOfTrees<'a, T> for Src24<core::slice::IterMut<'a, T>> {}
impl<'a, T: MutBorrowedBinaryTreeNode<'a>> MutBorrowedIntoIteratorOfBinaryTrees<'a, T> for Src24<core::slice::IterMut<'a, T>> {}

/// A symbolic depth (building the spine branches on it through the solver), or one of some larger ones.
fn deep() -> usize {
    match choice(3) {
        0 => { let d = v64() as usize; assume(d >= param(0) && d <= param(0) + 1); d }
        1 => 70,
        _ => param(1),
    }
}
fn wide() -> usize { [20, param(2)][choice(2)] }
fn at0(v: usize) -> M { M { v: v as u32, ch: Vec::new() } }
/// n-ary: 0..2 chains without and with siblings, 3 a fan, 4 a fan of chains of two, 5 a fan of fans.
fn shape_d(kind: usize, d: usize) -> M {
    let mut m = at0(d);
    match kind {
        0..=2 => if d > 0 { for s in 0..kind + 1 { m.ch.push((s, if s == (kind + 1) / 2 { shape_d(kind, d - 1) } else { at0(s) })); } },
        3 => for s in 0..d { m.ch.push((s, at0(s))); },
        4 => for s in 0..d { let mut c = at0(s); c.ch.push((0, at0(1))); m.ch.push((s, c)); },
        _ => for s in 0..d { m.ch.push((s, shape_d(3, s % 3))); },
    }
    m
}
/// binary: 0..2 left, right, zigzag chains, 3 and 4 chains with leaves on the other side, 5 a complete tree of about d nodes.
fn shape_e(kind: usize, d: usize) -> M {
    let mut m = at0(d);
    if d > 0 {
        match kind {
            0..=2 => { let s = if kind == 2 { d & 1 } else { kind }; m.ch.push((s, shape_e(kind, d - 1))); }
            3 => { m.ch.push((0, shape_e(kind, d - 1))); m.ch.push((1, at0(0))); }
            4 => { m.ch.push((0, at0(0))); m.ch.push((1, shape_e(kind, d - 1))); }
            _ => { m.ch.push((0, shape_e(kind, (d - 1) / 2))); if d > 1 { m.ch.push((1, shape_e(kind, (d - 1) / 2))); } }
        }
    }
    m
}
fn run<I: Iterator>(i: I) { for x in i { forget(x) } }
fn srun<S: StreamingIterator>(mut s: S) { while s.next().is_some() {} }
/// Deepest call stack of one operation, over all small trees, then on the big one.
macro_rules! bounded { ($mk:ident $shape:ident $kind:ident $deep:ident $t:ident => $e:expr) => { {
    let mut small = 0;
    for d in 1..9 {
        #[allow(unused_mut)]
        let mut $t = $mk(&$shape($kind, d));
        stack_reset();
        $e;
        small = small.max(stack_max());
    }
    #[allow(unused_mut)]
    let mut $t = $mk(&$shape($kind, $deep));
    stack_reset();
    $e;
    chk!(stack_max() <= small + 2);
} } }
macro_rules! ops { ($mk:ident $spine:ident $mode:ident $deep:ident $op:ident; $($i:literal $o:ident $r:ident $m:ident),*) => { $(
    if $op / 5 == $i { match $op % 5 {
        0 => { bounded!($mk $spine $mode $deep t => run(t.$o())); bounded!($mk $spine $mode $deep t => run(t.$r())); bounded!($mk $spine $mode $deep t => run(t.$m())); }
        1 => { bounded!($mk $spine $mode $deep t => srun(t.$o().attach_ancestors())); bounded!($mk $spine $mode $deep t => srun(t.$r().attach_ancestors())); bounded!($mk $spine $mode $deep t => srun(t.$m().attach_ancestors())); }
        2 => { bounded!($mk $spine $mode $deep t => srun(t.$o().attach_context())); bounded!($mk $spine $mode $deep t => srun(t.$r().attach_context())); bounded!($mk $spine $mode $deep t => srun(t.$m().attach_context())); }
        3 => { bounded!($mk $spine $mode $deep t => run(t.$o().leaves())); bounded!($mk $spine $mode $deep t => run(t.$r().leaves())); bounded!($mk $spine $mode $deep t => run(t.$m().leaves())); }
        _ => { bounded!($mk $spine $mode $deep t => srun(t.$o().attach_ancestors().leaves())); bounded!($mk $spine $mode $deep t => srun(t.$r().attach_ancestors().leaves())); bounded!($mk $spine $mode $deep t => srun(t.$m().attach_ancestors().leaves())); }
    } }
)* } }
/// Nothing is pruned, all or every second node below the root, or (where subtrees are deep: dropping them recurses) such leaves.
fn gone(how: usize, deep: bool) -> impl FnMut(u32) -> bool {
    let mut n = 0;
    move |v| { n += 1; how > 0 && n > 1 && (how == 1 || n & 1 == 0) && (!deep || v == 0) }
}
macro_rules! whole { ($mk:ident $spine:ident $mode:ident $deep:ident $op:ident $how:ident $chain:ident) => { { let (h, c) = ($how, $chain); match $op {
    0 => { bounded!($mk $spine $mode $deep t => forget(t.map(|v| v))); bounded!($mk $spine $mode $deep t => forget(t.map_ref(|v| *v))); bounded!($mk $spine $mode $deep t => forget(t.map_mut(|v| *v))); }
    1 => { bounded!($mk $spine $mode $deep t => forget(t.map_path(|_, v| v))); bounded!($mk $spine $mode $deep t => forget(t.map_path_ref(|_, v| *v))); bounded!($mk $spine $mode $deep t => forget(t.map_path_mut(|_, v| *v))); }
    2 => { bounded!($mk $spine $mode $deep t => t.fold(|_, v| v)); bounded!($mk $spine $mode $deep t => t.fold_ref(|_, v| *v)); bounded!($mk $spine $mode $deep t => t.fold_mut(|_, v| *v)); }
    3 => { bounded!($mk $spine $mode $deep t => t.fold_path(|_, _, v| v)); bounded!($mk $spine $mode $deep t => t.fold_path_ref(|_, _, v| *v)); bounded!($mk $spine $mode $deep t => t.fold_path_mut(|_, _, v| *v)); }
    4 => { bounded!($mk $spine $mode $deep t => forget(t.prune({ let mut g = gone(h, c); move |v| g(*v) }))); bounded!($mk $spine $mode $deep t => forget(t.prune_ref({ let mut g = gone(h, c); move |v| g(**v) }))); bounded!($mk $spine $mode $deep t => forget(t.prune_mut({ let mut g = gone(h, c); move |v| g(**v) }))); }
    5 => { bounded!($mk $spine $mode $deep t => forget(t.prune_path({ let mut g = gone(h, c); move |_, v| g(*v) }))); bounded!($mk $spine $mode $deep t => forget(t.prune_path_ref({ let mut g = gone(h, c); move |_, v| g(**v) }))); bounded!($mk $spine $mode $deep t => forget(t.prune_path_mut({ let mut g = gone(h, c); move |_, v| g(**v) }))); }
    6 => { let d = if c { 99999 } else { h }; bounded!($mk $spine $mode $deep t => forget(t.prune_depth(d))); bounded!($mk $spine $mode $deep t => forget(t.prune_depth_ref(h))); bounded!($mk $spine $mode $deep t => forget(t.prune_depth_mut(h))); }
    7 => { bounded!($mk $spine $mode $deep t => forget(t.into_pipeline().map_tree(|v| v).prune_path({ let mut g = gone(h, c); move |_, v| g(*v) }).collect_tree())); bounded!($mk $spine $mode $deep t => run(t.into_pipeline_ref().prune_depth(h).map_path(|_, v| v))); bounded!($mk $spine $mode $deep t => run(t.into_pipeline_mut().prune_path({ let mut g = gone(h, c); move |_, v| g(**v) }))); }
    8 => { bounded!($mk $spine $mode $deep t => t.into_pipeline().prune_path({ let mut g = gone(h, c); move |_, v| g(*v) }).fold_tree(|_, v| v)); bounded!($mk $spine $mode $deep t => t.into_pipeline_ref().prune_depth(h).fold_path(|_, _, v| *v)); bounded!($mk $spine $mode $deep t => run(t.into_pipeline())); }
    9 => { bounded!($mk $spine $mode $deep t => forget(t.into_pipeline().prune({ let mut g = gone(h, c); move |v| g(*v) }).collect_tree())); bounded!($mk $spine $mode $deep t => t.into_pipeline_ref().map_path(|_, v| *v).prune({ let mut g = gone(h, c); move |v| g(*v) }).fold_path(|_, _, v| v)); bounded!($mk $spine $mode $deep t => run(t.into_pipeline_mut().prune({ let mut g = gone(h, c); move |v| g(**v) }).prune(|_| false))); }
    _ => { let mut p = Vec::new(); { let m = $spine($mode, $deep); let mut m = &m; while let Some(x) = m.ch.last() { p.push(x.0); m = &x.1; } }
        bounded!($mk $spine $mode $deep t => forget(t.at_path_ref(&p))); bounded!($mk $spine $mode $deep t => forget(t.at_path_mut(&p))); }
} } } }
macro_rules! entry { ($name:ident $whole:ident $coll:ident $mk:ident $mks:ident $shape:ident $chains:literal $kinds:literal $bin:literal $($turbo:ty)?; $($i:literal $o:ident $r:ident $m:ident / $co:ident $cr:ident $cm:ident),*; $no:literal) => {
    pub fn $name() {
        let kind = choice($kinds);
        let deep = if kind < $chains { deep() } else { wide() };
        let op = choice(5 * $no);
        ops!($mk $shape kind deep op; $($i $o $r $m),*);
        cover(1);
    }
    pub fn $whole() {
        let kind = choice($kinds);
        let chain = kind < $chains;
        let deep = if chain { deep() } else { wide() };
        let (op, how) = (choice(11), choice(3));
        let chain = chain || $bin;
        whole!($mk $shape kind deep op how chain);
        cover(1);
    }
    /// Collections of many trees, of which many are pruned away.
    pub fn $coll() {
        let many = wide();
        let (op, how, kind) = (choice(9 + $no), choice(3), choice(2));
        fn forest(kind: usize, n: usize) -> Vec<M> { let mut f = Vec::new(); for i in 0..n { f.push(if kind == 0 { at0(i) } else { $shape($chains, i % 4) }); } f }
        macro_rules! each { ($t:ident $own:expr, $ref:expr, $mut:expr) => { {
            { let $t = |v| Src24(<Vec<_> as IntoIterator>::into_iter(v)); coll_one!(v => { let $t = $t(v); $own }); }
            coll_one!(v => { let $t = Src24(v.iter()); $ref });
            coll_one!(v => { let mut v = v; let $t = Src24(v.iter_mut()); $mut });
        } } }
        macro_rules! coll_one { ($v:ident => $e:block) => { {
            let mut small = 0;
            for d in 1..9 { let $v = $mks(&forest(kind, d)); stack_reset(); $e; small = small.max(stack_max()); }
            let $v = $mks(&forest(kind, many));
            stack_reset();
            $e;
            chk!(stack_max() <= small + 2);
        } } }
        let gone = move |v: u32| match how { 0 => false, 1 => true, _ => v & 1 == 0 };
        match op {
            0 => each!(t run(t.prune_each(|v| gone(*v))), run(t.prune_each_ref(|v| gone(**v))), run(t.prune_each_mut(|v| gone(**v)))),
            1 => each!(t run(t.prune_path_each(|_, v| gone(*v))), run(t.prune_path_each_ref(|_, v| gone(**v))), run(t.prune_path_each_mut(|_, v| gone(**v)))),
            2 => each!(t run(t.map_each(|v| v)), run(t.map_each_ref(|v| *v)), run(t.map_each_mut(|v| *v))),
            3 => each!(t run(t.map_path_each(|_, v| v)), run(t.map_path_each_ref(|_, v| *v)), run(t.map_path_each_mut(|_, v| *v))),
            4 => each!(t run(t.fold_each(|_, v| v)), run(t.fold_each_ref(|_, v| *v)), run(t.fold_each_mut(|_, v| *v))),
            5 => each!(t run(t.fold_path_each(|_, _, v| v)), run(t.fold_path_each_ref(|_, _, v| *v)), run(t.fold_path_each_mut(|_, _, v| *v))),
            6 => each!(t run(t.into_pipeline().prune(|v| gone(*v)).map_trees(|v| v).trees()), run(t.into_pipeline_ref().prune(|v| gone(**v)).trees()), run(t.into_pipeline_mut().prune(|v| gone(**v)).trees())),
            7 => each!(t run(t.into_pipeline().prune_path(|_, v| gone(*v)).fold_trees(|_, v| v)), run(t.into_pipeline_ref().prune(|v| gone(**v)).fold_path(|_, _, v| *v)), run(t.into_pipeline_mut().prune_depth(how).fold_trees(|_, v| *v))),
            8 => each!(t run(t.into_pipeline().prune(|v| gone(*v))), run(t.into_pipeline_ref().prune_path(|_, v| gone(**v))), run(t.into_pipeline_mut().prune_depth(how))),
            k => { $( if k - 9 == $i { match how {
                0 => each!(t run(t.$co()), run(t.$cr()), run(t.$cm())),
                _ => each!(t srun(t.$co().attach_context()), srun(t.$cr().attach_context()), srun(t.$cm().attach_context())),
            } } )* }
        }
        cover(1);
    }
} }
entry!(c24_n c24_whole_n c24_coll_n mk_d mks_d shape_d 3 6 false; 0 bfs bfs_iter bfs_iter_mut / bfs_each bfs_each_iter bfs_each_iter_mut, 1 dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut / dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, 2 dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut / dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut; 3);
entry!(c24_b c24_whole_b c24_coll_b mk_e mks_e shape_e 5 6 true; 0 bfs bfs_iter bfs_iter_mut / bfs_each bfs_each_iter bfs_each_iter_mut, 1 dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut / dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, 2 dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut / dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut, 3 dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut / dfs_inorder_each dfs_inorder_each_iter dfs_inorder_each_iter_mut; 4);
entries!(c24_n, c24_b, c24_whole_n, c24_whole_b, c24_coll_n, c24_coll_b);
