//! Post order.
use crate::model::*;
use tree_iterators_rs::prelude::*;
pub fn c03_n() {
    let m = shape_n();
    let e = order(&m, false, Ord::Post, None);
    let mut t = mk_n::<u32>(&m);
    seq(t.dfs_postorder_iter(), &e, line!());
    seq(t.dfs_postorder_iter_mut(), &e, line!());
    seq(t.dfs_postorder(), &e, line!());
    crate::sym::cover(1);
}
pub fn c03_b() {
    let m = shape_b();
    let e = order(&m, true, Ord::Post, None);
    let mut t = mk_b::<u32>(&m);
    seq(t.dfs_postorder_iter(), &e, line!());
    seq(t.dfs_postorder_iter_mut(), &e, line!());
    seq(t.dfs_postorder(), &e, line!());
    crate::sym::cover(1);
}
giants!(c03_giant_n pick_n tree_n; Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => g.seq(ord, it, 0, false, line!()));
giants!(c03_giant_b pick_b tree_b; Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut; g ord it => g.seq(ord, it, 0, false, line!()));
entries!(c03_giant_n, c03_giant_b, c03_n, c03_b);
