//! In order.
use crate::model::*;
use tree_iterators_rs::prelude::*;
pub fn c04_b() {
    let m = shape_b();
    let e = order(&m, true, Ord::In, None);
    let mut t = mk_b::<u32>(&m);
    seq(t.dfs_inorder_iter(), &e, line!());
    seq(t.dfs_inorder_iter_mut(), &e, line!());
    seq(t.dfs_inorder(), &e, line!());
    crate::sym::cover(1);
}
giants!(c04_giant_b pick_b tree_b; In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut; g ord it => g.seq(ord, it, 0, false, line!()));
entries!(c04_giant_b, c04_b);
