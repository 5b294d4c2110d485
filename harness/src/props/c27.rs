//! User code that panics: what was thrown arrives, every value is still dropped exactly once, borrowed trees are as they were.
use crate::model::*;
use crate::sym::*;
use alloc::boxed::Box;
use alloc::vec::Vec;
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;
type B = Box<u32>;
/// The call that throws, and calls so far.
static mut AT: u64 = 0;
static mut CALLS: u64 = 0;
fn arm() { unsafe { AT = v64(); CALLS = 0 } }
fn disarm() { unsafe { AT = u64::MAX } }
fn tick() { unsafe { let i = CALLS; CALLS += 1; if i == AT { throw() } } }
fn blown() -> bool { unsafe { AT != u64::MAX && CALLS > AT } }
fn armed_below(n: usize) -> bool { unsafe { AT < n as u64 } }
fn outcome(threw: bool) { chk!(threw == blown()); if threw { cover(1); } else { cover(2); } }
/// Steps an iterator to its end, or until something is thrown; then it goes on (to whatever it likes, safely) or is dropped.
fn drive<I: Iterator>(it: impl FnOnce() -> I) -> bool {
    let mut made = None;
    if catch(|| made = Some(it())) { return true; }
    let mut it = made.unwrap();
    let mut kept = Vec::new();
    let threw = catch(|| { let mut i = 0; while let Some(x) = it.next() { if i & 1 == 0 { kept.push(x) } i += 1; } });
    if threw && choice(2) == 1 { expect_panic(true); it.next(); it.next(); expect_panic(false); cover(3); }
    drop(it);
    threw
}
/// Reads what a stream shows.
trait Touch { fn touch(&self); }
impl<V: Val> Touch for [V] { fn touch(&self) { for v in self { obs(v.val() as u64); } } }
impl<V: Val, K> Touch for TreeContext<V, K> { fn touch(&self) { self.ancestors().touch(); } }
fn stream<I: StreamingIterator>(it: impl FnOnce() -> I) -> bool where I::Item: Touch {
    let mut made = None;
    if catch(|| made = Some(it())) { return true; }
    let mut it = made.unwrap();
    let threw = catch(|| while let Some(x) = it.next() { x.touch(); });
    if threw { match choice(3) {
        0 => {}
        1 => { expect_panic(true); if let Some(x) = it.get() { x.touch(); } expect_panic(false); }
        _ => { expect_panic(true); for _ in 0..2 { if let Some(x) = it.next() { x.touch(); } } expect_panic(false); cover(3); }
    } }
    drop(it);
    threw
}
macro_rules! tree { ($name:ident $any:ident $mk:ident $bin:literal $kids:ty) => {
    /// map, fold and prune of whole trees, owned, borrowed and mutable.
    pub fn $name() {
        leak_check(true);
        let m = $any(param(0));
        arm();
        let (op, how) = (choice(6), choice(3));
        let thr = v32();
        let mut t = Some($mk::<B>(&m));
        let threw = catch(|| {
            macro_rules! go { ($t:expr; $map:ident $mapp:ident $fold:ident $foldp:ident $prune:ident $prunep:ident) => { match op {
                0 => drop($t.$map(|v| { tick(); Box::new(v.val()) })),
                1 => drop($t.$mapp(|_, v| { tick(); Box::new(v.val()) })),
                2 => drop($t.$fold(|c: $kids, v| { tick(); (c, Box::new(v.val())).1 })),
                3 => drop($t.$foldp(|c: $kids, _, v| { tick(); (c, Box::new(v.val())).1 })),
                4 => drop($t.$prune(|v| { tick(); v.val() < thr })),
                _ => drop($t.$prunep(|_, v| { tick(); v.val() < thr })),
            } } }
            match how {
                0 => go!(t.take().unwrap(); map map_path fold fold_path prune prune_path),
                1 => go!(t.as_ref().unwrap(); map_ref map_path_ref fold_ref fold_path_ref prune_ref prune_path_ref),
                _ => go!(t.as_mut().unwrap(); map_mut map_path_mut fold_mut fold_path_mut prune_mut prune_path_mut),
            }
        });
        if op < 4 { chk!(threw == armed_below(m.size())); }
        if let Some(t) = &t { same(&enc(t), &m.enc($bin), line!()); }
        outcome(threw);
    }
} }
tree!(c27_tree_n pick_n mk_n false Vec<B>);
tree!(c27_tree_b pick_b mk_b true [Option<B>; 2]);

/// One stage with a throwing closure, then `$k`.
macro_rules! then { ($it:expr, $s:expr, $t:expr, $map:ident, $k:ident $($x:tt)*) => { { let t = $t; match $s {
    0 => $k!($it.prune(move |v| { tick(); v.val() < t }), $($x)*),
    1 => $k!($it.prune_path(move |_, v| { tick(); v.val() < t }), $($x)*),
    2 => $k!($it.$map(|v| { tick(); Box::new(v.val()) }), $($x)*),
    3 => $k!($it.map_path(|_, v| { tick(); Box::new(v.val()) }), $($x)*),
    _ => $k!($it, $($x)*),
} } } }
macro_rules! again { ($it:expr, $s:expr, $($x:tt)*) => { then!($it, $s, u32::MAX, map_tree, term $($x)*) } }
macro_rules! term { ($it:expr, $t:ident $kids:ty) => { match $t {
    0 => catch(|| drop($it.collect_tree())),
    1 => catch(|| drop($it.fold_tree(|c: $kids, v| { tick(); (c, Box::new(v.val())).1 }))),
    2 => catch(|| drop($it.fold_path(|c: $kids, _, v| { tick(); (c, Box::new(v.val())).1 }))),
    _ => drive(|| $it),
} } }
macro_rules! pipe { ($name:ident $two:ident $any:ident $mk:ident $bin:literal $kids:ty) => {
    /// Pipelines of one stage over each kind of source, collected, folded or stepped.
    pub fn $name() {
        leak_check(true);
        let m = $any(param(1));
        arm();
        let (s, how, t) = (choice(5), choice(3), choice(4));
        let thr = v32();
        let mut src = Some($mk::<B>(&m));
        let threw = match how {
            0 => then!(src.take().unwrap().into_pipeline(), s, thr, map_tree, term t $kids),
            1 => then!(src.as_ref().unwrap().into_pipeline_ref(), s, thr, map_tree, term t $kids),
            _ => then!(src.as_mut().unwrap().into_pipeline_mut(), s, thr, map_tree, term t $kids),
        };
        if let Some(t) = &src { same(&enc(t), &m.enc($bin), line!()); }
        outcome(threw);
    }
    /// Two stages, either of which may throw.
    pub fn $two() {
        leak_check(true);
        let m = $any(param(2));
        arm();
        let (s1, s2, t) = (choice(4), choice(4), choice(4));
        let thr = v32();
        outcome(then!($mk::<B>(&m).into_pipeline(), s1, thr, map_tree, again s2, t $kids));
    }
} }
pipe!(c27_pipe_n c27_two_n pick_n mk_n false Vec<B>);
pipe!(c27_pipe_b c27_two_b pick_b mk_b true [Option<B>; 2]);

/// A source of trees that may throw instead of giving the next one.
struct From<I>(I);
impl<I: Iterator> Iterator for From<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { tick(); self.0.next() }
}
impl<T: OwnedTreeNode> OwnedIntoIteratorOfTrees<T> for From<alloc::vec::IntoIter<T>> {}
impl<T: OwnedBinaryTreeNode> OwnedIntoIteratorOfBinaryTrees<T> for From<alloc::vec::IntoIter<T>> {}
impl<'a, T: BorrowedTreeNode<'a>> BorrowedIntoIteratorOfTrees<'a, T> for From<core::slice::Iter<'a, T>> {}
impl<'a, T: BorrowedBinaryTreeNode<'a>> BorrowedIntoIteratorOfBinaryTrees<'a, T> for From<core::slice::Iter<'a, T>> {}
impl<'a, T: MutBorrowedTreeNode<'a>> MutBorrowedIntoIteratorOfTrees<'a, T> for From<core::slice::IterMut<'a, T>> {}
impl<'a, T: MutBorrowedBinaryTreeNode<'a>> MutBorrowedIntoIteratorOfBinaryTrees<'a, T> for From<core::slice::IterMut<'a, T>> {}
macro_rules! eterm { ($it:expr, $t:ident $kids:ty) => { match $t {
    0 => drive(|| $it.trees()),
    1 => drive(|| $it.fold_trees(|c: $kids, v| { tick(); (c, Box::new(v.val())).1 })),
    2 => drive(|| $it.fold_path(|c: $kids, _, v| { tick(); (c, Box::new(v.val())).1 })),
    _ => drive(|| $it),
} } }
macro_rules! coll { ($name:ident $each:ident $trav:ident $forest:ident $mks:ident $bin:literal $kids:ty; $($i:literal $o:ident $r:ident $m:ident),*; $n:literal) => {
    /// Pipelines over collections.
    pub fn $name() {
        leak_check(true);
        let f = $forest(3, param(3));
        arm();
        let (s, how, t) = (choice(5), choice(3), choice(4));
        let thr = v32();
        let mut src = $mks::<B>(&f);
        let threw = match how {
            0 => { let src = core::mem::take(&mut src); then!(From(src.into_iter()).into_pipeline(), s, thr, map_trees, eterm t $kids) }
            1 => then!(From(src.iter()).into_pipeline_ref(), s, thr, map_trees, eterm t $kids),
            _ => then!(From(src.iter_mut()).into_pipeline_mut(), s, thr, map_trees, eterm t $kids),
        };
        if how > 0 { for (t, m) in src.iter().zip(&f) { same(&enc(t), &m.enc($bin), line!()); } }
        outcome(threw);
    }
    /// The operations named *_each.
    pub fn $each() {
        leak_check(true);
        let f = $forest(3, param(3));
        arm();
        let (op, how) = (choice(6), choice(3));
        let thr = v32();
        let mut src = $mks::<B>(&f);
        macro_rules! go { ($it:expr; $map:ident $mapp:ident $fold:ident $foldp:ident $prune:ident $prunep:ident) => { match op {
            0 => drive(|| $it.$map(|v| { tick(); Box::new(v.val()) })),
            1 => drive(|| $it.$mapp(|_, v| { tick(); Box::new(v.val()) })),
            2 => drive(|| $it.$fold(|c: $kids, v| { tick(); (c, Box::new(v.val())).1 })),
            3 => drive(|| $it.$foldp(|c: $kids, _, v| { tick(); (c, Box::new(v.val())).1 })),
            4 => drive(|| $it.$prune(|v| { tick(); v.val() < thr })),
            _ => drive(|| $it.$prunep(|_, v| { tick(); v.val() < thr })),
        } } }
        let threw = match how {
            0 => { let src = core::mem::take(&mut src); go!(From(src.into_iter()); map_each map_path_each fold_each fold_path_each prune_each prune_path_each) }
            1 => go!(From(src.iter()); map_each_ref map_path_each_ref fold_each_ref fold_path_each_ref prune_each_ref prune_path_each_ref),
            _ => go!(From(src.iter_mut()); map_each_mut map_path_each_mut fold_each_mut fold_path_each_mut prune_each_mut prune_path_each_mut),
        };
        if how > 0 { for (t, m) in src.iter().zip(&f) { same(&enc(t), &m.enc($bin), line!()); } }
        outcome(threw);
    }
    /// Traversals of a collection whose source throws.
    pub fn $trav() {
        leak_check(true);
        let f = $forest(3, param(3));
        arm();
        let (ord, how, ctx) = (choice($n), choice(3), choice(2) == 1);
        let mut src = $mks::<B>(&f);
        let mut threw = false;
        $( if ord == $i { threw = match how {
            0 => { let src = From(core::mem::take(&mut src).into_iter()); if ctx { stream(|| src.$o().attach_context()) } else { drive(|| src.$o()) } }
            1 => { let src = From(src.iter()); if ctx { stream(|| src.$r().attach_context()) } else { drive(|| src.$r()) } }
            _ => { let src = From(src.iter_mut()); if ctx { stream(|| src.$m().attach_context()) } else { drive(|| src.$m()) } }
        } } )*
        if how > 0 { for (t, m) in src.iter().zip(&f) { same(&enc(t), &m.enc($bin), line!()); } }
        outcome(threw);
    }
} }
coll!(c27_coll_n c27_each_n c27_from_n picks_n mks_n false Vec<B>; 0 bfs_each bfs_each_iter bfs_each_iter_mut, 1 dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, 2 dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut; 3);
coll!(c27_coll_b c27_each_b c27_from_b picks_b mks_b true [Option<B>; 2]; 0 bfs_each bfs_each_iter bfs_each_iter_mut, 1 dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, 2 dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut, 3 dfs_inorder_each dfs_inorder_each_iter dfs_inorder_each_iter_mut; 4);

/// An n-ary node that may throw when asked for its children, by the iterator over them, or when cloned.
pub struct P { value: B, kids: Vec<P> }
pub struct PKids<I>(I);
impl<I: Iterator> Iterator for PKids<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { tick(); self.0.next() }
}
impl<I: core::iter::FusedIterator> core::iter::FusedIterator for PKids<I> {}
impl OwnedTreeNode for P {
    type OwnedValue = B;
    type OwnedChildren = PKids<alloc::vec::IntoIter<P>>;
    fn get_value_and_children(self) -> (B, Self::OwnedChildren) { tick(); (self.value, PKids(self.kids.into_iter())) }
}
impl<'a> BorrowedTreeNode<'a> for P {
    type BorrowedValue = &'a B;
    type BorrowedChildren = PKids<core::slice::Iter<'a, P>>;
    fn get_value_and_children_iter(&'a self) -> (&'a B, Self::BorrowedChildren) { tick(); (&self.value, PKids(self.kids.iter())) }
}
impl<'a> MutBorrowedTreeNode<'a> for P {
    type MutBorrowedValue = &'a mut B;
    type MutBorrowedChildren = PKids<core::slice::IterMut<'a, P>>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut B, Self::MutBorrowedChildren) { tick(); (&mut self.value, PKids(self.kids.iter_mut())) }
}
impl Enc for P { fn enc(&self, o: &mut Vec<u64>) { o.push(*self.value as u64); o.push(self.kids.len() as u64); for c in self.kids.iter() { c.enc(o); } } }
fn mk_p(m: &M) -> P { let mut kids = Vec::new(); for c in &m.ch { kids.push(mk_p(&c.1)); } P { value: Box::new(m.v), kids } }
/// A binary one.
pub struct Q { value: B, l: Option<Box<Q>>, r: Option<Box<Q>> }
impl OwnedBinaryTreeNode for Q {
    type OwnedValue = B;
    fn get_value_and_children_binary(self) -> (B, [Option<Q>; 2]) { tick(); (self.value, [self.l.map(|c| *c), self.r.map(|c| *c)]) }
}
impl<'a> BorrowedBinaryTreeNode<'a> for Q {
    type BorrowedValue = &'a B;
    fn get_value_and_children_binary_iter(&'a self) -> (&'a B, [Option<&'a Q>; 2]) { tick(); (&self.value, [self.l.as_deref(), self.r.as_deref()]) }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for Q {
    type MutBorrowedValue = &'a mut B;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut B, [Option<&'a mut Q>; 2]) { tick(); (&mut self.value, [self.l.as_deref_mut(), self.r.as_deref_mut()]) }
}
impl Enc for Q { fn enc(&self, o: &mut Vec<u64>) { o.push(*self.value as u64); for c in [&self.l, &self.r] { match c { None => o.push(0), Some(c) => { o.push(1); c.enc(o) } } } } }
fn mk_q(m: &M) -> Q { Q { value: Box::new(m.v), l: m.slot(0).map(|c| Box::new(mk_q(c))), r: m.slot(1).map(|c| Box::new(mk_q(c))) } }
macro_rules! node { ($name:ident $any:ident $mk:ident $bin:literal; $i:literal $o:ident $r:ident $m:ident) => {
    /// Traversals of nodes that throw, of every kind, dropped or stepped on.
    pub fn $name() {
        leak_check(true);
        let m = $any(param(4));
        arm();
        let (how, kind) = (choice(3), choice(5));
        let mut src = Some($mk(&m));
        macro_rules! go { ($it:expr) => { match kind {
            0 => drive(|| $it),
            1 => drive(|| $it.leaves()),
            2 => stream(|| $it.attach_ancestors()),
            3 => stream(|| $it.attach_ancestors().leaves()),
            _ => stream(|| $it.attach_context()),
        } } }
        let threw = match how {
            0 => { let t = src.take().unwrap(); go!(t.$o()) }
            1 => { let t = src.as_ref().unwrap(); go!(t.$r()) }
            _ => { let t = src.as_mut().unwrap(); go!(t.$m()) }
        };
        outcome(threw);
        disarm();
        if let Some(t) = &src { same(&enc(t), &m.enc($bin), line!()); }
    }
} }
node!(c27_bfs_n mid_n mk_p false; 0 bfs bfs_iter bfs_iter_mut);
node!(c27_pre_n mid_n mk_p false; 0 dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut);
node!(c27_post_n mid_n mk_p false; 0 dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
node!(c27_bfs_b mid_b mk_q true; 0 bfs bfs_iter bfs_iter_mut);
node!(c27_pre_b mid_b mk_q true; 0 dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut);
node!(c27_in_b mid_b mk_q true; 0 dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut);
node!(c27_post_b mid_b mk_q true; 0 dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
macro_rules! nodeop { ($name:ident $any:ident $mk:ident $bin:literal $kids:ty) => {
    /// Whole-tree operations on nodes that throw.
    pub fn $name() {
        leak_check(true);
        let m = $any(param(5));
        arm();
        let (op, how) = (choice(7), choice(3));
        let mut src = Some($mk(&m));
        let d = choice(3);
        let threw = catch(|| {
            macro_rules! go { ($t:expr; $map:ident $fold:ident $prune:ident $depth:ident $pipe:ident $at:ident) => { match op {
                0 => drop($t.$map(|v| Box::new(v.val()))),
                1 => drop($t.$fold(|c: $kids, v| { tick(); (c, Box::new(v.val())).1 })),
                2 => drop($t.$prune(|v| v.val() == 0)),
                3 => drop($t.$depth(d)),
                4 => drop($t.$pipe().map_tree(|v| Box::new(v.val())).collect_tree()),
                5 => for x in $t.$pipe() { drop(x) },
                _ => drop($t.$at(&[d, 0])),
            } } }
            match how {
                0 => go!(src.take().unwrap(); map fold prune prune_depth into_pipeline at_path),
                1 => go!(src.as_ref().unwrap(); map_ref fold_ref prune_ref prune_depth_ref into_pipeline_ref at_path_ref),
                _ => go!(src.as_mut().unwrap(); map_mut fold_mut prune_mut prune_depth_mut into_pipeline_mut at_path_mut),
            }
        });
        outcome(threw);
        disarm();
        if let Some(t) = &src { same(&enc(t), &m.enc($bin), line!()); }
    }
} }
nodeop!(c27_op_n pick_n mk_p false Vec<B>);
nodeop!(c27_op_b pick_b mk_q true [Option<B>; 2]);

/// A value whose clone may throw.
struct C(B);
impl Clone for C { fn clone(&self) -> C { tick(); C(Box::new(*self.0)) } }
impl Default for C { fn default() -> C { C(Box::new(0)) } }
impl Val for C { fn val(&self) -> u32 { *self.0 } }
trait Fresh { fn fresh() -> Self; fn cloned_refs(&self); }
impl Fresh for Tree<C> {
    fn fresh() -> Self { Tree { value: C(Box::new(1)), children: Vec::new() } }
    fn cloned_refs(&self) { let r = self.map_ref(|v| v); drop(r.cloned()); }
}
impl Fresh for BinaryTree<C> {
    fn fresh() -> Self { BinaryTree { value: C(Box::new(1)), left: None, right: None } }
    fn cloned_refs(&self) { let r = self.map_ref(|v| v); drop(r.cloned()); }
}
macro_rules! copy { ($name:ident $any:ident $mk:ident $bin:literal $t:ident) => {
    /// Trees and contexts being cloned.
    pub fn $name() {
        leak_check(true);
        let m = $any(param(0));
        let src: $t<C> = $mk::<B>(&m).map(|v| C(v));
        arm();
        let threw = match choice(4) {
            0 => catch(|| drop(src.clone())),
            1 => { let mut old: $t<C> = Fresh::fresh(); catch(|| old.clone_from(&src)) }
            2 => catch(|| src.cloned_refs()),
            _ => {
                let k = at(m.size());
                let mut it = $mk::<B>(&m).map(|v| C(v)).dfs_preorder().attach_context();
                for _ in 0..k { it.next(); }
                let c = it.next().unwrap();
                catch(|| drop(c.clone()))
            }
        };
        outcome(threw);
        same(&enc(&src), &m.enc($bin), line!());
    }
} }
copy!(c27_copy_n mid_n mk_n false Tree);
copy!(c27_copy_b mid_b mk_b true BinaryTree);
entries!(c27_tree_n, c27_tree_b, c27_pipe_n, c27_pipe_b, c27_two_n, c27_two_b, c27_coll_n, c27_coll_b, c27_each_n, c27_each_b, c27_from_n, c27_from_b, c27_bfs_n, c27_pre_n, c27_post_n, c27_bfs_b, c27_pre_b, c27_in_b, c27_post_b, c27_op_n, c27_op_b, c27_copy_n, c27_copy_b);
