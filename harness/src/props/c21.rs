//! Node types of one's own: other child collections, by-value values, one-shot iterators.
use crate::model::*;
use crate::sym::*;
use alloc::collections::LinkedList;
use alloc::vec::Vec;
use tree_iterators_rs::prelude::*;

/// Children in a linked list; both borrows hand out freshly allocated vectors of references.
pub struct X { value: u32, kids: LinkedList<X> }
impl OwnedTreeNode for X {
    type OwnedValue = u32;
    type OwnedChildren = LinkedList<X>;
    fn get_value_and_children(self) -> (u32, LinkedList<X>) { (self.value, self.kids) }
}
impl<'a> BorrowedTreeNode<'a> for X {
    type BorrowedValue = &'a u32;
    type BorrowedChildren = Vec<&'a X>;
    fn get_value_and_children_iter(&'a self) -> (&'a u32, Vec<&'a X>) { (&self.value, self.kids.iter().collect()) }
}
impl<'a> MutBorrowedTreeNode<'a> for X {
    type MutBorrowedValue = &'a mut u32;
    type MutBorrowedChildren = Vec<&'a mut X>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut u32, Vec<&'a mut X>) { (&mut self.value, self.kids.iter_mut().collect()) }
}
fn mk_x(m: &M) -> X { let mut kids = LinkedList::new(); for c in &m.ch { kids.push_back(mk_x(&c.1)); } X { value: m.v, kids } }
impl Enc for X { fn enc(&self, o: &mut Vec<u64>) { o.push(self.value as u64); o.push(self.kids.len() as u64); for c in self.kids.iter() { c.enc(o); } } }
impl Kids for LinkedList<X> { fn toks(&self, o: &mut Vec<u64>) { o.push(self.len() as u64); for c in self.iter() { c.enc(o); } } }
impl Kids for Vec<&X> { fn toks(&self, o: &mut Vec<u64>) { o.push(self.len() as u64); for c in self.iter() { c.enc(o); } } }
impl Kids for Vec<&mut X> { fn toks(&self, o: &mut Vec<u64>) { o.push(self.len() as u64); for c in self.iter() { c.enc(o); } } }
fn mks_x(f: &[M]) -> Vec<X> { let mut o = Vec::new(); for m in f { o.push(mk_x(m)); } o }

/// The children collection is itself an iterator; the value is handed out by value even when borrowed.
pub struct Once { v: alloc::vec::IntoIter<Y> }
impl Iterator for Once {
    type Item = Y;
    fn next(&mut self) -> Option<Y> { self.v.next() }
}
pub struct Y { value: u32, kids: Vec<Y> }
impl OwnedTreeNode for Y {
    type OwnedValue = u32;
    type OwnedChildren = Once;
    fn get_value_and_children(self) -> (u32, Once) { (self.value, Once { v: self.kids.into_iter() }) }
}
impl<'a> BorrowedTreeNode<'a> for Y {
    type BorrowedValue = u32;
    type BorrowedChildren = core::slice::Iter<'a, Y>;
    fn get_value_and_children_iter(&'a self) -> (u32, core::slice::Iter<'a, Y>) { (self.value, self.kids.iter()) }
}
impl<'a> MutBorrowedTreeNode<'a> for Y {
    type MutBorrowedValue = u32;
    type MutBorrowedChildren = core::slice::IterMut<'a, Y>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (u32, core::slice::IterMut<'a, Y>) { (self.value, self.kids.iter_mut()) }
}
fn mk_y(m: &M) -> Y { let mut kids = Vec::new(); for c in &m.ch { kids.push(mk_y(&c.1)); } Y { value: m.v, kids } }
impl Enc for Y { fn enc(&self, o: &mut Vec<u64>) { o.push(self.value as u64); o.push(self.kids.len() as u64); for c in self.kids.iter() { c.enc(o); } } }
impl Kids for Once { fn toks(&self, o: &mut Vec<u64>) { let s = self.v.as_slice(); o.push(s.len() as u64); for c in s { c.enc(o); } } }
impl Kids for core::slice::Iter<'_, Y> { fn toks(&self, o: &mut Vec<u64>) { let s = self.as_slice(); o.push(s.len() as u64); for c in s { c.enc(o); } } }
impl Kids for core::slice::IterMut<'_, Y> { fn toks(&self, o: &mut Vec<u64>) { let s = self.as_slice(); o.push(s.len() as u64); for c in s { c.enc(o); } } }
fn mks_y(f: &[M]) -> Vec<Y> { let mut o = Vec::new(); for m in f { o.push(mk_y(m)); } o }

/// A binary node keeping its children in a vector of options, values handed out by value.
pub struct Z { value: u32, kids: Vec<Option<Z>> }
impl OwnedBinaryTreeNode for Z {
    type OwnedValue = u32;
    fn get_value_and_children_binary(mut self) -> (u32, [Option<Z>; 2]) { let r = self.kids.pop().unwrap(); let l = self.kids.pop().unwrap(); (self.value, [l, r]) }
}
impl<'a> BorrowedBinaryTreeNode<'a> for Z {
    type BorrowedValue = u32;
    fn get_value_and_children_binary_iter(&'a self) -> (u32, [Option<&'a Z>; 2]) { (self.value, [self.kids[0].as_ref(), self.kids[1].as_ref()]) }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for Z {
    type MutBorrowedValue = &'a mut u32;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut u32, [Option<&'a mut Z>; 2]) {
        let (l, r) = self.kids.split_at_mut(1);
        (&mut self.value, [l[0].as_mut(), r[0].as_mut()])
    }
}
fn mk_z(m: &M) -> Z { let mut kids = Vec::new(); for s in 0..2 { kids.push(m.slot(s).map(mk_z)); } Z { value: m.v, kids } }
impl Enc for Z { fn enc(&self, o: &mut Vec<u64>) { o.push(self.value as u64); for c in self.kids.iter() { match c { None => o.push(0), Some(c) => { o.push(1); c.enc(o) } } } } }
impl Kids for [Option<Z>; 2] { fn toks(&self, o: &mut Vec<u64>) { for c in self { match c { None => o.push(0), Some(c) => { o.push(1); c.enc(o) } } } } }
impl Kids for [Option<&Z>; 2] { fn toks(&self, o: &mut Vec<u64>) { for c in self { match c { None => o.push(0), Some(c) => { o.push(1); c.enc(o) } } } } }
impl Kids for [Option<&mut Z>; 2] { fn toks(&self, o: &mut Vec<u64>) { for c in self { match c { None => o.push(0), Some(c) => { o.push(1); c.enc(o) } } } } }
fn mks_z(f: &[M]) -> Vec<Z> { let mut o = Vec::new(); for m in f { o.push(mk_z(m)); } o }

macro_rules! trav { ($name:ident $any:ident $mk:ident $bin:literal; $($i:literal $ord:ident $o:ident $r:ident $m:ident),*; $no:literal) => {
    /// Values, ancestors, contexts, leaves of every traversal and ownership mode.
    pub fn $name() {
        leak_check(true);
        let m = $any(param(0));
        let op = choice($no);
        $( if op == $i {
            let e = order(&m, $bin, Ord::$ord, None);
            let l = leaves_of(&e, 0);
            let mut t = $mk(&m);
            seq(t.$r(), &e, line!());
            seq(t.$r().leaves(), &l, line!());
            anc_seq(&mut t.$r().attach_ancestors(), &e, line!());
            anc_seq(&mut t.$r().attach_ancestors().leaves(), &l, line!());
            ctx_seq(t.$r().attach_context(), &e, false, line!());
            seq(t.$m(), &e, line!());
            seq(t.$m().leaves(), &l, line!());
            anc_seq_mut(&mut t.$m().attach_ancestors(), &e, line!());
            anc_seq_mut(&mut t.$m().attach_ancestors().leaves(), &l, line!());
            ctx_seq_mut(t.$m().attach_context(), &e, false, line!());
            seq(t.$o(), &e, line!());
            seq($mk(&m).$o().leaves(), &l, line!());
            anc_seq_mut(&mut $mk(&m).$o().attach_ancestors(), &e, line!());
            anc_seq_mut(&mut $mk(&m).$o().attach_ancestors().leaves(), &l, line!());
            ctx_seq_mut($mk(&m).$o().attach_context(), &e, false, line!());
        } )*
        cover(1);
    }
} }
macro_rules! part { ($name:ident $any:ident $mk:ident $bin:literal; $($i:literal $ord:ident $o:ident $r:ident $m:ident),*; $no:literal) => {
    /// Contexts abandoned halfway: nothing leaks, nothing is freed twice.
    pub fn $name() {
        leak_check(true);
        let m = $any(param(1));
        let op = choice($no);
        let k = at(m.size() + 1);
        $( if op == $i {
            let e = order(&m, $bin, Ord::$ord, None);
            let mut t = $mk(&m);
            { let mut it = t.$r().attach_context(); for i in 0..k { same_ctx(it.next().unwrap(), &e[i], false, line!()); } }
            { let mut it = t.$m().attach_context(); for i in 0..k { same_ctx(it.next().unwrap(), &e[i], false, line!()); } }
            { let mut it = t.$r().attach_ancestors(); for i in 0..k { same_anc(it.next().unwrap(), &e[i], line!()); } seq_len(it.leaves(), leaves_of(&e, k).len()); }
            { let mut it = t.$m().attach_ancestors(); for i in 0..k { same_anc(it.next().unwrap(), &e[i], line!()); } seq_len(it.leaves(), leaves_of(&e, k).len()); }
            { let mut it = t.$o().attach_context(); for i in 0..k { same_ctx(it.next().unwrap(), &e[i], false, line!()); } }
        } )*
        cover(1);
    }
} }
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
fn seq_len<S: StreamingIterator>(mut s: S, n: usize) { let mut k = 0; while s.next().is_some() { k += 1; } chk!(k == n); }
macro_rules! rest { ($name:ident $any:ident $mk:ident $bin:literal $f:ident $fp:ident) => {
    /// at_path, prune, map and fold.
    pub fn $name() {
        leak_check(true);
        let m = $any(param(1));
        let t = if m.size() > 20 { 1 << 30 } else { v32() };
        let m = if m.size() > 20 { let mut m = m; numbered(&mut m); m } else { m };
        let w = stage1(&Some(m.clone()), $bin, Stage::PrunePath(t)).map(|m| m.enc($bin));
        let mut x = $mk(&m);
        same_opt(x.prune_path_ref(|p, v| prp(p, v.val(), t)).map(|t| enc(&t)), w.clone(), line!());
        same_opt(x.prune_path_mut(|p, v| prp(p, v.val(), t)).map(|t| enc(&t)), w.clone(), line!());
        same_opt($mk(&m).prune_path(|p, v| prp(p, v.val(), t)).map(|t| enc(&t)), w, line!());
        let w = stage1(&Some(m.clone()), $bin, Stage::MapPath).unwrap().enc($bin);
        same(&enc(&x.map_path_ref(|p, v| mpp(p, v.val()))), &w, line!());
        same(&enc(&x.map_path_mut(|p, v| mpp(p, v.val()))), &w, line!());
        same(&enc(&$mk(&m).map_path(|p, v| mpp(p, v.val()))), &w, line!());
        let w = m.encp(None, $bin);
        same(&x.fold_path_ref(|c, p, v| $fp(c, p, v.val())), &w, line!());
        same(&x.fold_path_mut(|c, p, v| $fp(c, p, v.val())), &w, line!());
        same(&$mk(&m).fold_path(|c, p, v| $fp(c, p, v.val())), &w, line!());
        let d = choice(3);
        let w = stage1(&Some(m.clone()), $bin, Stage::Depth(d)).unwrap().enc($bin);
        same(&enc(&x.prune_depth_ref(d)), &w, line!());
        same(&enc(&x.prune_depth_mut(d)), &w, line!());
        same(&enc(&$mk(&m).prune_depth(d)), &w, line!());
        for e in order(&m, $bin, Ord::Pre, None) {
            match x.at_path_ref(&e.path) { Some(n) => chk_eq!(n.value, e.v), None => chk!(false) }
            match x.at_path_mut(&e.path) { Some(n) => chk_eq!(n.value, e.v), None => chk!(false) }
            match $mk(&m).at_path(&e.path) { Some(n) => chk_eq!(n.value, e.v), None => chk!(false) }
        }
        cover(1);
    }
} }
macro_rules! coll { ($name:ident $forest:ident $mks:ident $bin:literal $f:ident; $($ord:ident $o:ident $r:ident $m:ident),*) => {
    pub fn $name() {
        leak_check(true);
        let f = $forest(2, param(1));
        let mut t = $mks(&f);
        $( {
            let e = order_each(&f, $bin, Ord::$ord);
            seq((&t).$r(), &e, line!());
            ctx_seq((&t).$r().attach_context(), &e, true, line!());
            seq((&mut t).$m(), &e, line!());
            ctx_seq_mut((&mut t).$m().attach_context(), &e, true, line!());
            seq($mks(&f).$o(), &e, line!());
            ctx_seq_mut($mks(&f).$o().attach_context(), &e, true, line!());
        } )*
        let want: Vec<Vec<u64>> = f.iter().map(|m| m.enc($bin)).collect();
        let got: Vec<Vec<u64>> = (&t).fold_each_ref(|c, v| $f(c, v.val())).collect();
        chk!(got.len() == want.len());
        for i in 0..got.len() { same(&got[i], &want[i], line!()); }
        cover(1);
    }
} }
/// Values without a size, and large over-aligned ones.
#[derive(Clone)]
pub struct Unit;
impl From<u32> for Unit { fn from(_: u32) -> Unit { Unit } }
impl Val for Unit { fn val(&self) -> u32 { 0 } }
#[derive(Clone)]
#[repr(align(64))]
pub struct Wide { a: [u64; 9], v: u32 }
impl From<u32> for Wide { fn from(v: u32) -> Wide { Wide { a: [v as u64; 9], v } } }
impl Val for Wide { fn val(&self) -> u32 { if self.a[8] == self.v as u64 && self.a[0] == self.v as u64 { self.v } else { !self.v } } }
fn blank(m: &mut M) { m.v = 0; for c in m.ch.iter_mut() { blank(&mut c.1); } }
fn zero_n(n: usize) -> M { let mut m = mid_n(n); blank(&mut m); m }
fn zero_b(n: usize) -> M { let mut m = mid_b(n); blank(&mut m); m }
fn mk_un(m: &M) -> Tree<Unit> { mk_n(m) }
fn mk_ub(m: &M) -> BinaryTree<Unit> { mk_b(m) }
fn mk_wn(m: &M) -> Tree<Wide> { mk_n(m) }
fn mk_wb(m: &M) -> BinaryTree<Wide> { mk_b(m) }
macro_rules! all_n { ($($x:tt)*) => { trav!($($x)* ; 0 Bfs bfs bfs_iter bfs_iter_mut, 1 Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, 2 Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; 3); } }
all_n!(c21_x mid_n mk_x false);
all_n!(c21_y mid_n mk_y false);
all_n!(c21_un zero_n mk_un false);
all_n!(c21_wn mid_n mk_wn false);
trav!(c21_ub zero_b mk_ub true; 0 Bfs bfs bfs_iter bfs_iter_mut, 1 Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, 2 Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut, 3 In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut; 4);
trav!(c21_wb mid_b mk_wb true; 0 Bfs bfs bfs_iter bfs_iter_mut, 1 Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, 2 Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut, 3 In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut; 4);
part!(c21_px mid_n mk_x false; 0 Bfs bfs bfs_iter bfs_iter_mut, 1 Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, 2 Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; 3);
part!(c21_py mid_n mk_y false; 0 Bfs bfs bfs_iter bfs_iter_mut, 1 Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, 2 Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; 3);
trav!(c21_z mid_b mk_z true; 0 Bfs bfs bfs_iter bfs_iter_mut, 1 Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, 2 Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut, 3 In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut; 4);
part!(c21_pz mid_b mk_z true; 0 Bfs bfs bfs_iter bfs_iter_mut, 1 Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, 2 Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut, 3 In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut; 4);
rest!(c21_rx mid_n mk_x false fold_n foldp_n);
rest!(c21_ry mid_n mk_y false fold_n foldp_n);
rest!(c21_rz mid_b mk_z true fold_b foldp_b);
coll!(c21_cx mids_n mks_x false fold_n; Bfs bfs_each bfs_each_iter bfs_each_iter_mut, Pre dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, Post dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut);
coll!(c21_cy mids_n mks_y false fold_n; Bfs bfs_each bfs_each_iter bfs_each_iter_mut, Pre dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, Post dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut);
coll!(c21_cz mids_b mks_z true fold_b; Bfs bfs_each bfs_each_iter bfs_each_iter_mut, Pre dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, In dfs_inorder_each dfs_inorder_each_iter dfs_inorder_each_iter_mut, Post dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut);
entries!(c21_un, c21_ub, c21_wn, c21_wb, c21_x, c21_y, c21_z, c21_px, c21_py, c21_pz, c21_rx, c21_ry, c21_rz, c21_cx, c21_cy, c21_cz);
