//! leaves() after any number of next() calls.
use crate::model::*;
use crate::sym::*;
use tree_iterators_rs::prelude::*;
macro_rules! run { ($name:ident $shape:ident $mk:ident $bin:literal; $ord:ident $o:ident $r:ident $m:ident) => {
    pub fn $name() {
        let m = $shape();
        let all = order(&m, $bin, Ord::$ord, None);
        let k = point(all.len());
        let e = leaves_of(&all, k);
        let mut t = $mk::<u32>(&m);
        { let mut it = t.$r(); for i in 0..k { chk!(it.next().is_some() == (i < all.len())); } seq(it.leaves(), &e, line!()); }
        { let mut it = t.$m(); for i in 0..k { chk!(it.next().is_some() == (i < all.len())); } seq(it.leaves(), &e, line!()); }
        { let mut it = t.$o(); for i in 0..k { chk!(it.next().is_some() == (i < all.len())); } seq(it.leaves(), &e, line!()); }
        cover(1);
        if k > 0 && k < all.len() && e.len() > 1 { cover(2); }
    }
} }
run!(c09_bfs_n shape_n mk_n false; Bfs bfs bfs_iter bfs_iter_mut);
run!(c09_pre_n shape_n mk_n false; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut);
run!(c09_post_n shape_n mk_n false; Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
run!(c09_bfs_b shape_b mk_b true; Bfs bfs bfs_iter bfs_iter_mut);
run!(c09_pre_b shape_b mk_b true; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut);
run!(c09_in_b shape_b mk_b true; In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut);
run!(c09_post_b shape_b mk_b true; Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
giants!(c09_giant_n pick_n tree_n; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => { let k = g.total() / 2; for _ in 0..k { it.next(); } g.seq(ord, it.leaves(), k, true, line!()) });
giants!(c09_giant_b pick_b tree_b; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => { let k = g.total() / 2; for _ in 0..k { it.next(); } g.seq(ord, it.leaves(), k, true, line!()) });
entries!(c09_giant_n, c09_giant_b, c09_bfs_n, c09_pre_n, c09_post_n, c09_bfs_b, c09_pre_b, c09_in_b, c09_post_b);
