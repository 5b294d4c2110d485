//! leaves() on a fresh iterator.
use crate::model::*;
use tree_iterators_rs::prelude::*;
macro_rules! run { ($name:ident $shape:ident $mk:ident $bin:literal; $($ord:ident $o:ident $r:ident $m:ident),*) => {
    pub fn $name() {
        let m = $shape();
        $( {
            let e = leaves_of(&order(&m, $bin, Ord::$ord, None), 0);
            let mut t = $mk::<u32>(&m);
            seq(t.$r().leaves(), &e, line!());
            seq(t.$m().leaves(), &e, line!());
            seq(t.$o().leaves(), &e, line!());
        } )*
        crate::sym::cover(1);
    }
} }
run!(c08_n shape_n mk_n false; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
run!(c08_b shape_b mk_b true; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
giants!(c08_giant_n pick_n tree_n; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => g.seq(ord, it.leaves(), 0, true, line!()));
giants!(c08_giant_b pick_b tree_b; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => g.seq(ord, it.leaves(), 0, true, line!()));
entries!(c08_giant_n, c08_giant_b, c08_n, c08_b);
