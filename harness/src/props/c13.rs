//! prune, prune_path and prune_depth of a single tree.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use alloc::vec::Vec;
use core::mem::ManuallyDrop;
use tree_iterators_rs::prelude::*;

/// The calls prune must make: preorder, never below a pruned node.
fn calls(m: &M, path: &mut Vec<usize>, t: u32, byp: bool, o: &mut Vec<u64>) {
    o.push(m.v as u64);
    if byp { o.push(hash(path) as u64); }
    if if byp { prp(path, m.v, t) } else { pr(m.v, t) } { return; }
    for (k, c) in &m.ch { path.push(*k); calls(c, path, t, byp, o); path.pop(); }
}
macro_rules! run { ($a:ident $b:ident $c:ident $gen:ident $shape:ident $mk:ident $bin:literal) => {
    pub fn $a() {
        let m = $gen(param(0));
        let t = v32();
        let want = stage1(&Some(m.clone()), $bin, Stage::Prune(t)).map(|m| m.enc($bin));
        let mut log = Vec::new();
        calls(&m, &mut Vec::new(), t, false, &mut log);
        let mut tree = $mk::<u32>(&m);
        { let mut got = Vec::new(); let r = tree.prune_ref(|v| { got.push(v.val() as u64); pr(v.val(), t) }); same_opt(r.map(|r| enc(&r)), want.clone(), line!()); same(&got, &log, line!()); }
        { let mut got = Vec::new(); let r = tree.prune_mut(|v| { got.push(v.val() as u64); pr(v.val(), t) }); same_opt(r.map(|r| enc(&r)), want.clone(), line!()); same(&got, &log, line!()); }
        { let mut got = Vec::new(); let r = tree.prune(|v| { got.push(v.val() as u64); pr(v.val(), t) }); same_opt(r.map(|r| enc(&r)), want.clone(), line!()); same(&got, &log, line!()); }
        cover(if want.is_none() { 1 } else { 2 });
    }
    pub fn $b() {
        let m = $gen(param(0));
        let t = v32();
        let want = stage1(&Some(m.clone()), $bin, Stage::PrunePath(t)).map(|m| m.enc($bin));
        let mut log = Vec::new();
        calls(&m, &mut Vec::new(), t, true, &mut log);
        let mut tree = $mk::<u32>(&m);
        { let mut got = Vec::new(); let r = tree.prune_path_ref(|p, v| { got.push(v.val() as u64); got.push(hash(p) as u64); prp(p, v.val(), t) }); same_opt(r.map(|r| enc(&r)), want.clone(), line!()); same(&got, &log, line!()); }
        { let mut got = Vec::new(); let r = tree.prune_path_mut(|p, v| { got.push(v.val() as u64); got.push(hash(p) as u64); prp(p, v.val(), t) }); same_opt(r.map(|r| enc(&r)), want.clone(), line!()); same(&got, &log, line!()); }
        { let mut got = Vec::new(); let r = tree.prune_path(|p, v| { got.push(v.val() as u64); got.push(hash(p) as u64); prp(p, v.val(), t) }); same_opt(r.map(|r| enc(&r)), want.clone(), line!()); same(&got, &log, line!()); }
        cover(if want.is_none() { 1 } else { 2 });
    }
    pub fn $c() {
        let m = $shape();
        let d = v64() as usize;
        let want = stage1(&Some(m.clone()), $bin, Stage::Depth(d)).unwrap();
        if want.size() < m.size() { cover(3); }
        let want = want.enc($bin);
        let mut tree = $mk::<u32>(&m);
        same(&enc(&tree.prune_depth_ref(d)), &want, line!());
        same(&enc(&tree.prune_depth_mut(d)), &want, line!());
        same(&enc(&tree.prune_depth(d)), &want, line!());
        cover(1);
    }
} }
run!(c13_prune_n c13_path_n c13_depth_n pick_n shape_n mk_n false);
run!(c13_prune_b c13_path_b c13_depth_b pick_b shape_b mk_b true);
/// Borrowed and mutable access leave the tree behind, to be forgotten; owned access consumes it.
macro_rules! ways { ($src:ident $how:ident; $t:ident => $r:expr, $m:expr, $o:expr) => { match $how {
    0 => { let $t = $src; $r }
    1 => { let mut $t = $src; $m }
    _ => { let $t = ManuallyDrop::into_inner($src); $o }
} } }
/// A wide tree that loses every other child, a deep or large one that is cut at a level or at a node.
macro_rules! giant { ($name:ident $depth:ident $pick:ident $mk:ident $same:ident) => {
    pub fn $name() {
        let mut g = G::$pick();
        g.base = 0;
        let byp = choice(2) == 1;
        let how = choice(3);
        if how == 2 { g.shallow(); }
        // nodes that go: odd children of the fan, the lower half of the chain, half of the last level
        let gone = |j: u32| match g.sh { Sh::Fan => j & 1 == 1, Sh::Chain(_) => j as usize >= g.n / 2, Sh::Full => g.leaf(j as usize) && j & 1 == 1 };
        let gonep = |p: &[usize], j: u32| { g.path_ok(p, 0, j as usize, line!()); gone(j) };
        let t = ManuallyDrop::new(g.$mk::<u32>());
        macro_rules! left { ($r:expr) => { {
            let r = ManuallyDrop::new($r.unwrap());
            let (mut n, mut last) = (0, 0);
            for v in r.bfs_iter() { let j = v.val(); chk!(!gone(j) && (j > last || j == 0)); last = j; n += 1; }
            chk!(n == match g.sh { Sh::Fan => g.n / 2 + 1, Sh::Chain(_) => g.n / 2, Sh::Full => g.total() / 2 + (g.total() + 1) / 4 });
        } } }
        ways!(t how; t => if byp { left!(t.prune_path_ref(|p, v| gonep(p, v.val()))) } else { left!(t.prune_ref(|v| gone(v.val()))) },
            if byp { left!(t.prune_path_mut(|p, v| gonep(p, v.val()))) } else { left!(t.prune_mut(|v| gone(v.val()))) },
            if byp { left!(t.prune_path(|p, v| gonep(p, v.val()))) } else { left!(t.prune(|v| gone(v.val()))) });
        cover(1);
    }
    pub fn $depth() {
        let mut g = G::$pick();
        let how = choice(3);
        if how == 2 { g.shallow(); }
        let top = g.depth(g.total() - 1);
        let d = [1, top / 2, top - 1, top, usize::MAX][choice(5)];
        let t = ManuallyDrop::new(g.$mk::<u32>());
        let mut cut = g;
        cut.n = d.min(top) + 1;
        macro_rules! left { ($r:expr) => { {
            let r = ManuallyDrop::new($r);
            if g.sh == Sh::Fan {
                let mut n = 0;
                for (i, v) in r.bfs_iter().enumerate() { chk_eq!(v.val(), g.val(i)); n += 1; }
                chk!(n == if d >= 2 { g.n + 2 } else { g.n + 1 });
            } else { cut.$same(&r, &|j| g.val(j), line!()); }
        } } }
        ways!(t how; t => left!(t.prune_depth_ref(d)), left!(t.prune_depth_mut(d)), left!(t.prune_depth(d)));
        cover(1);
    }
} }
giant!(c13_giant_n c13_gdepth_n pick_n tree_n same_n);
giant!(c13_giant_b c13_gdepth_b pick_b tree_b same_b);
entries!(c13_giant_n, c13_giant_b, c13_gdepth_n, c13_gdepth_b, c13_prune_n, c13_path_n, c13_depth_n, c13_prune_b, c13_path_b, c13_depth_b);
