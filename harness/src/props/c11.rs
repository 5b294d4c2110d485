//! Collections of trees: *_each traversals and their contexts.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use alloc::vec::Vec;
use tree_iterators_rs::prelude::*;
macro_rules! arr { ($v:expr) => { { let mut v = $v; let b = v.pop().unwrap(); let a = v.pop().unwrap(); [a, b] } } }
fn two_n(n: usize) -> Vec<M> { let mut l = n - 2; let a = gen_n(&mut l); let b = gen_n(&mut l); alloc::vec![a, b] }
fn two_b(n: usize) -> Vec<M> { let mut l = n - 2; let a = gen_b(&mut l); let b = gen_b(&mut l); alloc::vec![a, b] }
macro_rules! run { ($name:ident $ctx:ident $arr:ident $forest:ident $two:ident $mks:ident $bin:literal $slice:ident; $($ord:ident $o:ident $r:ident $m:ident),*) => {
    pub fn $name() {
        let f = $forest(3, param(0));
        $( {
            let e = order_each(&f, $bin, Ord::$ord);
            let mut t = $mks::<u32>(&f);
            seq((&t).$r(), &e, line!());
            seq(t.iter().$r(), &e, line!());
            seq((&mut t).$m(), &e, line!());
            seq(t.iter_mut().$m(), &e, line!());
            seq(t.$o(), &e, line!());
        } )*
        cover(1);
        if f.is_empty() { cover(2); }
        if f.len() == 3 { cover(3); }
    }
    pub fn $ctx() {
        let f = $forest(3, param(0));
        $( {
            let e = order_each(&f, $bin, Ord::$ord);
            let mut t = $mks::<u32>(&f);
            ctx_seq((&t).$r().attach_context(), &e, true, line!());
            ctx_seq(t.iter().$r().attach_context(), &e, true, line!());
            ctx_seq_mut((&mut t).$m().attach_context(), &e, true, line!());
            ctx_seq_mut(t.iter_mut().$m().attach_context(), &e, true, line!());
            ctx_seq_mut(t.$o().attach_context(), &e, true, line!());
        } )*
        cover(1);
        if f.len() == 3 { cover(3); }
    }
    pub fn $arr() {
        let f = $two(param(0));
        $( {
            let e = order_each(&f, $bin, Ord::$ord);
            let mut t = arr!($mks::<u32>(&f));
            seq($slice!(t).$r(), &e, line!());
            ctx_seq($slice!(t).$r().attach_context(), &e, true, line!());
            seq((&mut t).$m(), &e, line!());
            ctx_seq_mut((&mut t).$m().attach_context(), &e, true, line!());
            let t2 = arr!($mks::<u32>(&f));
            seq(t.$o(), &e, line!());
            ctx_seq_mut(t2.$o().attach_context(), &e, true, line!());
        } )*
        cover(1);
    }
} }
macro_rules! as_slice { ($t:ident) => { $t.as_slice() } }
macro_rules! as_array { ($t:ident) => { (&$t) } }
run!(c11_bfs_n c11_cbfs_n c11_abfs_n forests_n two_n mks_n false as_slice; Bfs bfs_each bfs_each_iter bfs_each_iter_mut);
run!(c11_dfs_n c11_cdfs_n c11_adfs_n forests_n two_n mks_n false as_slice; Pre dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, Post dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut);
run!(c11_bfs_b c11_cbfs_b c11_abfs_b forests_b two_b mks_b true as_array; Bfs bfs_each bfs_each_iter bfs_each_iter_mut);
run!(c11_dfs_b c11_cdfs_b c11_adfs_b forests_b two_b mks_b true as_array; Pre dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, In dfs_inorder_each dfs_inorder_each_iter dfs_inorder_each_iter_mut, Post dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut);
/// Very many trees: all leaves but the last, which has a child (it is the fan without its root).
macro_rules! giant { ($name:ident $forest:ident; $($ord:ident $o:ident $r:ident $m:ident),*) => {
    pub fn $name() {
        let g = G { sh: Sh::Fan, n: param(0), base: v32(), bin: false };
        let mut ords = Vec::new();
        $( ords.push(Ord::$ord); )*
        let (ord, how, ctx) = (ords[choice(ords.len())], choice(3), choice(2));
        let mut t = $forest(&g);
        $( if ord == Ord::$ord { match (how, ctx) {
            (0, 0) => plain(&g, ord, (&t).$r()), (0, _) => ctxs(&g, ord, (&t).$r().attach_context()),
            (1, 0) => plain(&g, ord, (&mut t).$m()), (1, _) => ctxs(&g, ord, (&mut t).$m().attach_context()),
            (_, 0) => plain(&g, ord, t.$o()), _ => ctxs(&g, ord, t.$o().attach_context()),
        } return cover(1); } )*
    }
} }
fn plain<I: Iterator>(g: &G, ord: Ord, mut it: I) where I::Item: Val {
    g.walk(ord, &mut |j| if j > 0 { match it.next() { None => chk!(false), Some(x) => chk_eq!(x.val(), g.val(j)) } });
    chk!(it.next().is_none());
}
fn ctxs<V: Val, C: Kids, S: streaming_iterator::StreamingIterator<Item = TreeContext<V, C>>>(g: &G, ord: Ord, mut it: S) {
    g.walk(ord, &mut |j| if j > 0 { match it.next() {
        None => chk!(false),
        Some(c) => {
            g.path_ok(c.path(), 0, j, line!());
            let a = c.ancestors();
            chk!(a.len() == g.depth(j) && c.depth() + 1 == a.len());
            chk_eq!(a[a.len() - 1].val(), g.val(j));
            chk_eq!(a[0].val(), g.val(j.min(g.n)));
        }
    } });
    chk!(it.next().is_none());
}
giant!(c11_giant_n many_n; Bfs bfs_each bfs_each_iter bfs_each_iter_mut, Pre dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, Post dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut);
giant!(c11_giant_b many_b; Bfs bfs_each bfs_each_iter bfs_each_iter_mut, Pre dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, In dfs_inorder_each dfs_inorder_each_iter dfs_inorder_each_iter_mut, Post dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut);
entries!(c11_giant_n, c11_giant_b, c11_bfs_n, c11_cbfs_n, c11_abfs_n, c11_dfs_n, c11_cdfs_n, c11_adfs_n, c11_bfs_b, c11_cbfs_b, c11_abfs_b, c11_dfs_b, c11_cdfs_b, c11_adfs_b);
