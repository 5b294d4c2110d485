//! attach_context on the breadth-first traversal.
use crate::model::*;
use tree_iterators_rs::prelude::*;
macro_rules! run { ($name:ident $shape:ident $mk:ident $bin:literal; $($ord:ident $o:ident $r:ident $m:ident),*) => {
    pub fn $name() {
        let m = $shape();
        $( {
            let e = order(&m, $bin, Ord::$ord, None);
            let mut t = $mk::<u32>(&m);
            ctx_seq(t.$r().attach_context(), &e, false, line!());
            ctx_seq_mut(t.$m().attach_context(), &e, false, line!());
            ctx_seq_mut(t.$o().attach_context(), &e, false, line!());
        } )*
        crate::sym::cover(1);
    }
} }
run!(c07_n shape_n mk_n false; Bfs bfs bfs_iter bfs_iter_mut);
run!(c07_b shape_b mk_b true; Bfs bfs bfs_iter bfs_iter_mut);
giants!(c07_giant_n pick_n tree_n; Bfs bfs bfs_iter bfs_iter_mut; g ord it => g.ctxs(ord, it.attach_context(), line!()));
giants!(c07_giant_b pick_b tree_b; Bfs bfs bfs_iter bfs_iter_mut; g ord it => g.ctxs(ord, it.attach_context(), line!()));
entries!(c07_giant_n, c07_giant_b, c07_n, c07_b);
