//! attach_ancestors / attach_context: allowed exactly until the first element was yielded.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
#[allow(unused_imports)]
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;
/// Take `k` items, one by one, all at once or skipping most of them, then attach. After an item was yielded the call must not return.
macro_rules! guard { ($it:expr, $k:ident of $n:ident, $attach:ident, $bin:literal, $e:ident, $seq:ident $($x:tt)*) => { {
    let mut it = $it;
    let mut got = 0;
    match if $k == 0 { 0 } else { choice(4) } {
        0 => for _ in 0..$k { if it.next().is_some() { got += 1; } },
        1 => got += it.by_ref().take($k).count(),
        2 => { let found = it.nth($k - 1).is_some(); chk!(found == ($k <= $n)); got += $k.min($n); },
        _ => got += it.by_ref().count(),
    }
    expect_panic(got > 0);
    let mut s = it.$attach();
    chk!(got == 0);
    expect_panic(false);
    $seq!(s $e $($x)*);
} } }
macro_rules! anc { ($s:ident $e:ident) => { anc_seq(&mut $s, &$e, line!()) } }
macro_rules! ctx { ($s:ident $e:ident $ti:literal) => { { let _ = &mut $s; ctx_seq($s, &$e, $ti, line!()) } } }
macro_rules! run { ($name:ident $coll:ident $any:ident $mk:ident $forest:ident $mks:ident $bin:literal; $($ord:ident $o:ident $r:ident $m:ident / $co:ident $cr:ident $cm:ident $i:literal),* ; $no:literal) => {
    pub fn $name() {
        let m = $any(param(0));
        let n = m.size();
        let k = point(n);
        let op = choice(6 * $no);
        cover(if k == 0 { 1 } else { 2 });
        $(
            if op / 6 == $i {
                let e = if k == 0 { order(&m, $bin, Ord::$ord, None) } else { alloc::vec::Vec::new() };
                let mut t = $mk::<u32>(&m);
                match op % 6 {
                    0 => guard!(t.$r(), k of n, attach_ancestors, $bin, e, anc),
                    1 => guard!(t.$m(), k of n, attach_ancestors, $bin, e, anc),
                    2 => guard!(t.$o(), k of n, attach_ancestors, $bin, e, anc),
                    3 => guard!(t.$r(), k of n, attach_context, $bin, e, ctx false),
                    4 => guard!(t.$m(), k of n, attach_context, $bin, e, ctx false),
                    _ => guard!(t.$o(), k of n, attach_context, $bin, e, ctx false),
                }
            }
        )*
    }
    pub fn $coll() {
        let f = $forest(2, param(0));
        let mut n = 0;
        for m in &f { n += m.size(); }
        let k = point(n);
        let op = choice(3 * $no);
        if k > 0 && n == 0 { cover(3); }
        cover(if k == 0 { 1 } else { 2 });
        $(
            if op / 3 == $i {
                let e = if k == 0 || n == 0 { order_each(&f, $bin, Ord::$ord) } else { alloc::vec::Vec::new() };
                let mut t = $mks::<u32>(&f);
                match op % 3 {
                    0 => guard!((&t).$cr(), k of n, attach_context, $bin, e, ctx true),
                    1 => guard!((&mut t).$cm(), k of n, attach_context, $bin, e, ctx true),
                    _ => guard!(t.$co(), k of n, attach_context, $bin, e, ctx true),
                }
            }
        )*
    }
} }
run!(c20_n c20_coll_n mid_n mk_n mids_n mks_n false; Bfs bfs bfs_iter bfs_iter_mut / bfs_each bfs_each_iter bfs_each_iter_mut 0, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut / dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut 1, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut / dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut 2; 3);
run!(c20_b c20_coll_b mid_b mk_b mids_b mks_b true; Bfs bfs bfs_iter bfs_iter_mut / bfs_each bfs_each_iter bfs_each_iter_mut 0, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut / dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut 1, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut / dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut 2, In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut / dfs_inorder_each dfs_inorder_each_iter dfs_inorder_each_iter_mut 3; 4);
/// After many steps, numbers that a small counter would take for none.
macro_rules! late { ($it:expr, $k:ident, $attach:ident) => { {
    let mut it = $it;
    for _ in 0..$k { chk!(it.next().is_some()); }
    cover(1);
    expect_panic($k > 0);
    let s = it.$attach();
    chk!($k == 0);
    expect_panic(false);
    core::mem::forget(s);
} } }
macro_rules! giant { ($name:ident $coll:ident $pick:ident $tree:ident $many:ident; $($ord:ident $o:ident $r:ident $m:ident / $co:ident $cr:ident $cm:ident),*) => {
    pub fn $name() {
        let mut g = G::$pick();
        let mut ords = alloc::vec::Vec::new();
        $( ords.push(Ord::$ord); )*
        let (ord, how, ctx, k) = (ords[choice(ords.len())], choice(3), choice(2), [0, 256, 65536][choice(3)]);
        if ord == Ord::Bfs { g.shallow(); }
        let k = k.min(g.total() / 256 * 256);
        $( if ord == Ord::$ord {
            let mut t = g.$tree::<u32>();
            match (how, ctx) {
                (0, 0) => { late!(t.$r(), k, attach_ancestors); core::mem::forget(t) }, (0, _) => { late!(t.$r(), k, attach_context); core::mem::forget(t) },
                (1, 0) => { late!(t.$m(), k, attach_ancestors); core::mem::forget(t) }, (1, _) => { late!(t.$m(), k, attach_context); core::mem::forget(t) },
                (_, 0) => late!(t.$o(), k, attach_ancestors), _ => late!(t.$o(), k, attach_context),
            }
        } )*
    }
    pub fn $coll() {
        let g = G { sh: Sh::Fan, n: param(0), base: v32(), bin: false };
        let mut ords = alloc::vec::Vec::new();
        $( ords.push(Ord::$ord); )*
        let (ord, how, k) = (ords[choice(ords.len())], choice(3), [0, 256, 65536][choice(3)]);
        $( if ord == Ord::$ord {
            let mut t = $many(&g);
            match how { 0 => late!((&t).$cr(), k, attach_context), 1 => late!((&mut t).$cm(), k, attach_context), _ => late!(t.$co(), k, attach_context) }
        } )*
    }
} }
giant!(c20_giant_n c20_gcoll_n pick_n tree_n many_n; Bfs bfs bfs_iter bfs_iter_mut / bfs_each bfs_each_iter bfs_each_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut / dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut / dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut);
giant!(c20_giant_b c20_gcoll_b pick_b tree_b many_b; Bfs bfs bfs_iter bfs_iter_mut / bfs_each bfs_each_iter bfs_each_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut / dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut / dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut, In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut / dfs_inorder_each dfs_inorder_each_iter dfs_inorder_each_iter_mut);
entries!(c20_giant_n, c20_gcoll_n, c20_giant_b, c20_gcoll_b, c20_n, c20_coll_n, c20_b, c20_coll_b);
