//! Owned traversals: every value is dropped exactly once, however far the iteration got.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use alloc::boxed::Box;
use alloc::vec::Vec;
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;
type B = Box<u32>;
/// Take `k` items (keeping every other one), then drop iterator and items.
fn part<I: Iterator>(mut it: I, k: usize) -> Vec<I::Item> {
    let mut keep = Vec::new();
    for i in 0..k { match it.next() { None => break, Some(x) => if i & 1 == 0 { keep.push(x) } } }
    keep
}
/// A symbolic number of steps, at most `n`: the loops below branch on it through the solver.
fn upto(n: usize) -> usize { if n > 20 { return point(n - 1); } let k = v64() as usize; assume(k <= n); k }
fn steps<S: StreamingIterator>(mut it: S, k: usize) { for _ in 0..k { if it.next().is_none() { break; } } }
fn total(v: &[B], all: &[Info]) { chk!(v.len() <= all.len()); for b in v { obs(**b as u64); } }
macro_rules! run { ($plain:ident $anc:ident $ctx:ident $gen:ident $mk:ident $bin:literal; $ord:ident $o:ident) => {
    pub fn $plain() {
        leak_check(true);
        let m = $gen(param(0));
        let all = order(&m, $bin, Ord::$ord, None);
        let k = upto(all.len());
        total(&part($mk::<B>(&m).$o(), k), &all);
        total(&part($mk::<B>(&m).$o().leaves(), k), &all);
        // switch to leaves halfway
        let mut it = $mk::<B>(&m).$o();
        for _ in 0..k { it.next(); }
        let j = choice(2);
        total(&part(it.leaves(), if j == 0 { 1 } else { all.len() }), &all);
        cover(1);
    }
    pub fn $anc() {
        leak_check(true);
        let m = $gen(param(0));
        let all = order(&m, $bin, Ord::$ord, None);
        let k = upto(all.len() + 1);
        steps($mk::<B>(&m).$o().attach_ancestors(), k);
        steps($mk::<B>(&m).$o().attach_ancestors().leaves(), k);
        let mut it = $mk::<B>(&m).$o().attach_ancestors();
        for _ in 0..k { it.next(); }
        let j = choice(2);
        steps(it.leaves(), if j == 0 { 1 } else { all.len() + 1 });
        cover(1);
    }
    pub fn $ctx() {
        leak_check(true);
        let m = $gen(param(0));
        let k = upto(m.size() + 1);
        steps($mk::<B>(&m).$o().attach_context(), k);
        let mut it = $mk::<B>(&m).$o().attach_context();
        let mut kept = Vec::new();
        for _ in 0..k { match it.next() { None => break, Some(c) => kept.push(c.clone()) } }
        drop(it);
        for c in kept.iter() { chk!(c.ancestors().len() == c.path().len() + 1); }
        cover(1);
    }
} }
run!(c19_bfs_n c19_abfs_n c19_cbfs_n mid_n mk_n false; Bfs bfs);
run!(c19_pre_n c19_apre_n c19_cpre_n mid_n mk_n false; Pre dfs_preorder);
run!(c19_post_n c19_apost_n c19_cpost_n mid_n mk_n false; Post dfs_postorder);
run!(c19_bfs_b c19_abfs_b c19_cbfs_b mid_b mk_b true; Bfs bfs);
run!(c19_pre_b c19_apre_b c19_cpre_b mid_b mk_b true; Pre dfs_preorder);
run!(c19_in_b c19_ain_b c19_cin_b mid_b mk_b true; In dfs_inorder);
run!(c19_post_b c19_apost_b c19_cpost_b mid_b mk_b true; Post dfs_postorder);
macro_rules! coll { ($name:ident $forest:ident $mks:ident; $($o:ident),*) => {
    pub fn $name() {
        leak_check(true);
        let f = $forest(2, param(1));
        let mut n = 0;
        for m in &f { n += m.size(); }
        let k = upto(n);
        $( part($mks::<B>(&f).$o(), k); steps($mks::<B>(&f).$o().attach_context(), k + 1); )*
        cover(1);
    }
} }
coll!(c19_coll_n mids_n mks_n; bfs_each, dfs_preorder_each, dfs_postorder_each);
coll!(c19_coll_b mids_b mks_b; bfs_each, dfs_preorder_each, dfs_inorder_each, dfs_postorder_each);
macro_rules! pipe { ($name:ident $gen:ident $mk:ident $mks:ident $f:ident $fp:ident) => {
    pub fn $name() {
        leak_check(true);
        let m = $gen(param(1));
        let t = v32();
        let d = upto(2);
        let k = upto(m.size());
        let g = |v: B| Box::new(mp(*v));
        match choice(8) {
            0 => drop($mk::<B>(&m).prune(|v| pr(v.val(), t))),
            1 => drop($mk::<B>(&m).prune_path(|p, v| prp(p, v.val(), t))),
            2 => drop($mk::<B>(&m).prune_depth(d)),
            3 => drop($mk::<B>(&m).map(g)),
            4 => drop($mk::<B>(&m).fold(|c, v| $f(c, v.val()))),
            5 => drop($mk::<B>(&m).fold_path(|c, p, v| $fp(c, p, v.val()))),
            6 => drop(part($mk::<B>(&m).into_pipeline().prune(|v| pr(v.val(), t)).map_tree(g).prune_depth(d), k)),
            _ => drop($mk::<B>(&m).at_path(&[d, 0])),
        }
        cover(1);
    }
} }
pipe!(c19_pipe_n any_n mk_n mks_n fold_n foldp_n);
pipe!(c19_pipe_b any_b mk_b mks_b fold_b foldp_b);
macro_rules! cpipe { ($name:ident $forest:ident $mks:ident $f:ident $fp:ident) => {
    pub fn $name() {
        leak_check(true);
        let f = $forest(2, param(1));
        let t = v32();
        let d = upto(2);
        let k = upto(2);
        let g = |v: B| Box::new(mp(*v));
        match choice(6) {
            0 => drop(part($mks::<B>(&f).into_pipeline().prune(|v| pr(v.val(), t)).trees(), k)),
            1 => drop(part($mks::<B>(&f).into_pipeline().prune_depth(d).map_trees(g).trees(), k)),
            2 => drop(part($mks::<B>(&f).into_pipeline().fold_trees(|c, v| $f(c, v.val())), k)),
            3 => drop(part($mks::<B>(&f).into_pipeline().fold_path(|c, p, v| $fp(c, p, v.val())), k)),
            4 => drop(part($mks::<B>(&f).into_pipeline(), k + 1)),
            _ => drop($mks::<B>(&f).at_path(&[d, k])),
        }
        cover(1);
    }
} }
cpipe!(c19_cpipe_n forest_n mks_n fold_n foldp_n);
cpipe!(c19_cpipe_b forest_b mks_b fold_b foldp_b);
/// Wide and large trees, dropped halfway or run to the end.
macro_rules! giant { ($name:ident $bin:literal $mk:ident; $($ord:ident $o:ident),*) => {
    pub fn $name() {
        leak_check(true);
        let g = if $bin { G { sh: Sh::Full, n: param(1), base: v32(), bin: true } } else { G { sh: Sh::Fan, n: param(0), base: v32(), bin: false } };
        let mut ords = Vec::new();
        $( ords.push(Ord::$ord); )*
        let (ord, how) = (ords[choice(ords.len())], choice(5));
        let k = [g.total() / 2, g.total() + 1][choice(2)];
        $( if ord == Ord::$ord { match how {
            0 => { part(g.$mk::<B>().$o(), k); }
            1 => steps(g.$mk::<B>().$o().attach_ancestors(), k),
            2 => steps(g.$mk::<B>().$o().attach_context(), k),
            3 => { let mut it = g.$mk::<B>().$o(); for _ in 0..k { it.next(); } part(it.leaves(), k / 4); }
            _ => { let mut it = g.$mk::<B>().$o().attach_ancestors(); for _ in 0..k / 2 { it.next(); } steps(it.leaves(), k / 4); }
        } } )*
        cover(1);
    }
} }
giant!(c19_giant_n false tree_n; Bfs bfs, Pre dfs_preorder, Post dfs_postorder);
giant!(c19_giant_b true tree_b; Bfs bfs, Pre dfs_preorder, In dfs_inorder, Post dfs_postorder);
entries!(c19_giant_n, c19_giant_b, c19_bfs_n, c19_abfs_n, c19_cbfs_n, c19_pre_n, c19_apre_n, c19_cpre_n, c19_post_n, c19_apost_n, c19_cpost_n, c19_bfs_b, c19_abfs_b, c19_cbfs_b, c19_pre_b, c19_apre_b, c19_cpre_b, c19_in_b, c19_ain_b, c19_cin_b, c19_post_b, c19_apost_b, c19_cpost_b, c19_coll_n, c19_coll_b, c19_pipe_n, c19_pipe_b, c19_cpipe_n, c19_cpipe_b);
