//! attach_ancestors on every traversal.
use crate::model::*;
use tree_iterators_rs::prelude::*;
macro_rules! run { ($name:ident $shape:ident $mk:ident $bin:literal; $($ord:ident $o:ident $r:ident $m:ident),*) => {
    pub fn $name() {
        let m = $shape();
        $( {
            let e = order(&m, $bin, Ord::$ord, None);
            let mut t = $mk::<u32>(&m);
            anc_seq(&mut t.$r().attach_ancestors(), &e, line!());
            anc_seq_mut(&mut t.$m().attach_ancestors(), &e, line!());
            anc_seq_mut(&mut t.$o().attach_ancestors(), &e, line!());
        } )*
        crate::sym::cover(1);
    }
} }
run!(c05_bfs_n shape_n mk_n false; Bfs bfs bfs_iter bfs_iter_mut);
run!(c05_bfs_b shape_b mk_b true; Bfs bfs bfs_iter bfs_iter_mut);
run!(c05_dfs_n shape_n mk_n false; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
run!(c05_dfs_b shape_b mk_b true; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
giants!(c05_giant_n pick_n tree_n; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => g.ancs(ord, it.attach_ancestors(), 0, false, line!()));
giants!(c05_giant_b pick_b tree_b; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => g.ancs(ord, it.attach_ancestors(), 0, false, line!()));
entries!(c05_giant_n, c05_giant_b, c05_bfs_n, c05_bfs_b, c05_dfs_n, c05_dfs_b);
