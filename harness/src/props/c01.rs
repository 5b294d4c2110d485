//! Bfs order.
use crate::model::*;
use tree_iterators_rs::prelude::*;
pub fn c01_n() {
    let m = shape_n();
    let e = order(&m, false, Ord::Bfs, None);
    let mut t = mk_n::<u32>(&m);
    seq(t.bfs_iter(), &e, line!());
    seq(t.bfs_iter_mut(), &e, line!());
    seq(t.bfs(), &e, line!());
    crate::sym::cover(1);
}
pub fn c01_b() {
    let m = shape_b();
    let e = order(&m, true, Ord::Bfs, None);
    let mut t = mk_b::<u32>(&m);
    seq(t.bfs_iter(), &e, line!());
    seq(t.bfs_iter_mut(), &e, line!());
    seq(t.bfs(), &e, line!());
    crate::sym::cover(1);
}
giants!(c01_giant_n pick_n tree_n; Bfs bfs bfs_iter bfs_iter_mut; g ord it => g.seq(ord, it, 0, false, line!()));
giants!(c01_giant_b pick_b tree_b; Bfs bfs bfs_iter bfs_iter_mut; g ord it => g.seq(ord, it, 0, false, line!()));
entries!(c01_giant_n, c01_giant_b, c01_n, c01_b);
