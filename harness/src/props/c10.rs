//! attach_ancestors().leaves(), fresh and after any number of advances.
use crate::model::*;
use crate::sym::*;
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;
macro_rules! run { ($fresh:ident $mid:ident $shape:ident $mk:ident $bin:literal; $ord:ident $o:ident $r:ident $m:ident) => {
    pub fn $fresh() {
        let m = $shape();
        let e = leaves_of(&order(&m, $bin, Ord::$ord, None), 0);
        let mut t = $mk::<u32>(&m);
        anc_seq(&mut t.$r().attach_ancestors().leaves(), &e, line!());
        anc_seq_mut(&mut t.$m().attach_ancestors().leaves(), &e, line!());
        anc_seq_mut(&mut t.$o().attach_ancestors().leaves(), &e, line!());
        cover(1);
    }
    pub fn $mid() {
        let m = $shape();
        let all = order(&m, $bin, Ord::$ord, None);
        let k = point(all.len());
        let e = leaves_of(&all, k);
        let mut t = $mk::<u32>(&m);
        { let mut it = t.$r().attach_ancestors(); for i in 0..k { chk!(it.next().is_some() == (i < all.len())); } anc_seq(&mut it.leaves(), &e, line!()); }
        { let mut it = t.$m().attach_ancestors(); for i in 0..k { chk!(it.next().is_some() == (i < all.len())); } anc_seq_mut(&mut it.leaves(), &e, line!()); }
        { let mut it = t.$o().attach_ancestors(); for i in 0..k { chk!(it.next().is_some() == (i < all.len())); } anc_seq_mut(&mut it.leaves(), &e, line!()); }
        cover(1);
        if k > 0 && k < all.len() && e.len() > 1 { cover(2); }
    }
} }
run!(c10_bfs_n c10_mbfs_n shape_n mk_n false; Bfs bfs bfs_iter bfs_iter_mut);
run!(c10_pre_n c10_mpre_n shape_n mk_n false; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut);
run!(c10_post_n c10_mpost_n shape_n mk_n false; Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
run!(c10_bfs_b c10_mbfs_b shape_b mk_b true; Bfs bfs bfs_iter bfs_iter_mut);
run!(c10_pre_b c10_mpre_b shape_b mk_b true; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut);
run!(c10_in_b c10_min_b shape_b mk_b true; In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut);
run!(c10_post_b c10_mpost_b shape_b mk_b true; Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
giants!(c10_giant_n pick_n tree_n; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => { let k = g.total() / 2; let mut it = it.attach_ancestors(); for _ in 0..k { it.advance(); } g.ancs(ord, it.leaves(), k, true, line!()) });
giants!(c10_giant_b pick_b tree_b; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => { let k = g.total() / 2; let mut it = it.attach_ancestors(); for _ in 0..k { it.advance(); } g.ancs(ord, it.leaves(), k, true, line!()) });
entries!(c10_giant_n, c10_giant_b, c10_bfs_n, c10_mbfs_n, c10_pre_n, c10_mpre_n, c10_post_n, c10_mpost_n, c10_bfs_b, c10_mbfs_b, c10_pre_b, c10_mpre_b, c10_in_b, c10_min_b, c10_post_b, c10_mpost_b);
