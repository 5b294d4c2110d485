//! Pre order.
use crate::model::*;
use tree_iterators_rs::prelude::*;
pub fn c02_n() {
    let m = shape_n();
    let e = order(&m, false, Ord::Pre, None);
    let mut t = mk_n::<u32>(&m);
    seq(t.dfs_preorder_iter(), &e, line!());
    seq(t.dfs_preorder_iter_mut(), &e, line!());
    seq(t.dfs_preorder(), &e, line!());
    crate::sym::cover(1);
}
pub fn c02_b() {
    let m = shape_b();
    let e = order(&m, true, Ord::Pre, None);
    let mut t = mk_b::<u32>(&m);
    seq(t.dfs_preorder_iter(), &e, line!());
    seq(t.dfs_preorder_iter_mut(), &e, line!());
    seq(t.dfs_preorder(), &e, line!());
    crate::sym::cover(1);
}
giants!(c02_giant_n pick_n tree_n; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut; g ord it => g.seq(ord, it, 0, false, line!()));
giants!(c02_giant_b pick_b tree_b; Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut; g ord it => g.seq(ord, it, 0, false, line!()));
entries!(c02_giant_n, c02_giant_b, c02_n, c02_b);
