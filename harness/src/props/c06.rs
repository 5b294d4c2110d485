//! attach_context on the depth-first traversals.
use crate::model::*;
use tree_iterators_rs::prelude::*;
macro_rules! run { ($name:ident $shape:ident $mk:ident $bin:literal; $($ord:ident $o:ident $r:ident $m:ident),*) => {
    pub fn $name() {
        let m = $shape();
        $( {
            let e = order(&m, $bin, Ord::$ord, None);
            let mut t = $mk::<u32>(&m);
            ctx_seq(t.$r().attach_context(), &e, false, line!());
            ctx_seq_mut(t.$m().attach_context(), &e, false, line!());
            ctx_seq_mut(t.$o().attach_context(), &e, false, line!());
        } )*
        crate::sym::cover(1);
    }
} }
run!(c06_pre_n shape_n mk_n false; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut);
run!(c06_pre_b shape_b mk_b true; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut);
run!(c06_in_b shape_b mk_b true; In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut);
run!(c06_post_n shape_n mk_n false; Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
run!(c06_post_b shape_b mk_b true; Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
giants!(c06_giant_n pick_n tree_n; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => g.ctxs(ord, it.attach_context(), line!()));
giants!(c06_giant_b pick_b tree_b; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => g.ctxs(ord, it.attach_context(), line!()));
entries!(c06_giant_n, c06_giant_b, c06_pre_n, c06_pre_b, c06_in_b, c06_post_n, c06_post_b);
