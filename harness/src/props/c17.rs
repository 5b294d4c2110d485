//! Pipelines over collections of trees, the *_each operations and trees().
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use alloc::vec::Vec;
use tree_iterators_rs::prelude::*;

fn any_stage() -> Stage {
    match choice(5) { 0 => Stage::Prune(v32()), 1 => Stage::PrunePath(v32()), 2 => Stage::Depth(v64() as usize), 3 => Stage::Map, _ => Stage::MapPath }
}
fn flat(v: Vec<Toks>) -> Toks { let mut o = Vec::new(); o.push(v.len() as u64); for t in v { o.extend(t); } o }
fn number(f: &[M]) -> Vec<(usize, M)> { let mut o = Vec::new(); for (i, m) in f.iter().enumerate() { o.push((i, m.clone())); } o }
fn encs(f: &[(usize, M)], sk: usize, paths: bool, bin: bool) -> Toks {
    let mut o = Vec::new();
    for (i, m) in f { o.push(if paths { m.encp(if sk == 1 { None } else { Some(*i) }, bin) } else { m.enc(bin) }); }
    flat(o)
}
macro_rules! then { ($it:expr, $s:expr, $sk:expr, $k:ident $($x:tt)*) => { { let sk = $sk; match $s {
    Stage::Prune(t) => $k!($it.prune(move |v| pr(v.val(), t)), $($x)*),
    Stage::PrunePath(t) => $k!($it.prune_path(move |p, v| prp(&p[sk..], v.val(), t)), $($x)*),
    Stage::Depth(d) => $k!($it.prune_depth(d), $($x)*),
    Stage::Map => $k!($it.map_trees(|v| mp(v.val())), $($x)*),
    Stage::MapPath => $k!($it.map_path(move |p, v| mpp(&p[sk..], v.val())), $($x)*),
    Stage::None => $k!($it, $($x)*),
} } } }
macro_rules! second { ($it:expr, $s:expr, $sk:expr, $($x:tt)*) => { then!($it, $s, $sk, term $($x)*) } }
macro_rules! term { ($it:expr, $t:ident $sk:ident $f:ident $fp:ident) => { match $t {
    0 => flat($it.trees().map(|t| enc(&t)).collect()),
    1 => flat($it.fold_trees(|c, v| $f(c, v.val())).collect()),
    _ => flat($it.fold_path(move |c, p, v| $fp(c, &p[$sk..], v.val())).collect()),
} } }
macro_rules! run { ($name:ident $each:ident $src:ident $sref:ident $smut:ident $forest:ident $picks:ident $mks:ident $bin:literal $f:ident $fp:ident) => {
    pub fn $name() {
        let f = $forest(3, param(0));
        let (s1, s2, t) = (any_stage(), any_stage(), choice(3));
        let f0 = number(&f);
        let f1 = stage_each(&f0, 0, $bin, s1);
        let k1 = ($bin && f1.len() != f0.len()) as usize;
        let f2 = stage_each(&f1, k1, $bin, s2);
        let k2 = ($bin && f2.len() != f0.len()) as usize;
        let want = encs(&f2, k2, t == 2, $bin);
        if f0.len() != f1.len() && f1.len() > 0 { cover(1); }
        if f2.len() > 1 { cover(2); }
        let got = then!($mks::<u32>(&f).$src(), s1, 0, second s2, k1, t k2 $f $fp);
        same(&got, &want, line!());
    }
    /// One stage or none, on every kind of source.
    pub fn $each() {
        let f = $picks(3, param(1));
        let (s, t) = (if choice(2) == 0 { Stage::None } else { any_stage() }, choice(3));
        let f0 = number(&f);
        let f1 = stage_each(&f0, 0, $bin, s);
        let k = ($bin && f1.len() != f0.len()) as usize;
        let want = encs(&f1, k, t == 2, $bin);
        let mut ts = $mks::<u32>(&f);
        same(&then!((&ts).$sref(), s, 0, term t k $f $fp), &want, line!());
        same(&then!((&mut ts).$smut(), s, 0, term t k $f $fp), &want, line!());
        same(&then!(ts.$src(), s, 0, term t k $f $fp), &want, line!());
        if f1.len() > 1 { cover(2); }
    }
} }
run!(c17_own_n c17_src_n into_pipeline into_pipeline_ref into_pipeline_mut forest_n picks_n mks_n false fold_n foldp_n);
run!(c17_own_b c17_src_b into_pipeline into_pipeline_ref into_pipeline_mut forest_b picks_b mks_b true fold_b foldp_b);
macro_rules! each { ($name:ident $forest:ident $mks:ident $bin:literal $f:ident $fp:ident; $pd:ident $pdr:ident $pdm:ident $($turbo:tt)*) => {
    /// The *_each convenience operations.
    pub fn $name() {
        let f = $forest(3, param(2));
        let f0 = number(&f);
        let (t, d) = (v32(), v64() as usize);
        let mut ts = $mks::<u32>(&f);
        let w = |s: Stage| encs(&stage_each(&f0, 0, $bin, s), 0, false, $bin);
        match choice(7) {
            0 => { let w = w(Stage::Prune(t));
                same(&flat((&ts).prune_each_ref(|v| pr(v.val(), t)).map(|t| enc(&t)).collect()), &w, line!());
                same(&flat((&mut ts).prune_each_mut(|v| pr(v.val(), t)).map(|t| enc(&t)).collect()), &w, line!());
                same(&flat(ts.prune_each(|v| pr(v.val(), t)).map(|t| enc(&t)).collect()), &w, line!()); }
            1 => { let w = w(Stage::PrunePath(t));
                same(&flat((&ts).prune_path_each_ref(|p, v| prp(p, v.val(), t)).map(|t| enc(&t)).collect()), &w, line!());
                same(&flat((&mut ts).prune_path_each_mut(|p, v| prp(p, v.val(), t)).map(|t| enc(&t)).collect()), &w, line!());
                same(&flat(ts.prune_path_each(|p, v| prp(p, v.val(), t)).map(|t| enc(&t)).collect()), &w, line!()); }
            2 => { let w = w(Stage::Depth(d));
                same(&flat((&ts).prune_depth_each_ref(d).map(|t| enc(&t)).collect()), &w, line!());
                same(&flat((&mut ts).prune_depth_each_mut(d).map(|t| enc(&t)).collect()), &w, line!());
                same(&flat(ts.prune_depth_each $($turbo)* (d).map(|t| enc(&t)).collect()), &w, line!()); }
            3 => { let w = w(Stage::Map);
                same(&flat((&ts).map_each_ref(|v| mp(v.val())).map(|t| enc(&t)).collect()), &w, line!());
                same(&flat((&mut ts).map_each_mut(|v| mp(v.val())).map(|t| enc(&t)).collect()), &w, line!());
                same(&flat(ts.map_each(|v| mp(v.val())).map(|t| enc(&t)).collect()), &w, line!()); }
            4 => { let w = w(Stage::MapPath);
                same(&flat((&ts).map_path_each_ref(|p, v| mpp(p, v.val())).map(|t| enc(&t)).collect()), &w, line!());
                same(&flat((&mut ts).map_path_each_mut(|p, v| mpp(p, v.val())).map(|t| enc(&t)).collect()), &w, line!());
                same(&flat(ts.map_path_each(|p, v| mpp(p, v.val())).map(|t| enc(&t)).collect()), &w, line!()); }
            5 => { let w = w(Stage::None);
                same(&flat((&ts).fold_each_ref(|c, v| $f(c, v.val())).collect()), &w, line!());
                same(&flat((&mut ts).fold_each_mut(|c, v| $f(c, v.val())).collect()), &w, line!());
                same(&flat(ts.fold_each(|c, v| $f(c, v.val())).collect()), &w, line!()); }
            _ => { let w = encs(&f0, 0, true, $bin);
                same(&flat((&ts).fold_path_each_ref(|c, p, v| $fp(c, p, v.val())).collect()), &w, line!());
                same(&flat((&mut ts).fold_path_each_mut(|c, p, v| $fp(c, p, v.val())).collect()), &w, line!());
                same(&flat(ts.fold_path_each(|c, p, v| $fp(c, p, v.val())).collect()), &w, line!()); }
        }
        if f.len() == 3 { cover(1); }
    }
} }
each!(c17_each_n picks_n mks_n false fold_n foldp_n; prune_depth_each prune_depth_each_ref prune_depth_each_mut ::<()>);
each!(c17_each_b picks_b mks_b true fold_b foldp_b; prune_depth_each prune_depth_each_ref prune_depth_each_mut);
macro_rules! also { ($it:expr, $s:expr, [$($turbo:tt)*], $k:ident $($x:tt)*) => { match $s {
    Stage::Prune(t) => $k!($it.prune_each(move |v| pr(v.val(), t)), $($x)*),
    Stage::PrunePath(t) => $k!($it.prune_path_each(move |p, v| prp(p, v.val(), t)), $($x)*),
    Stage::Depth(d) => $k!($it.prune_depth_each $($turbo)* (d), $($x)*),
    Stage::Map => $k!($it.map_each(|v| mp(v.val())), $($x)*),
    _ => $k!($it.map_path_each(|p, v| mpp(p, v.val())), $($x)*),
} } }
macro_rules! also2 { ($it:expr, $s:expr, $tb:tt, $($x:tt)*) => { also!($it, $s, $tb, done $($x)*) } }
macro_rules! done { ($it:expr, $e:ident $w:ident $bin:literal $f:ident $way:ident) => { match $way {
    0 => same(&flat($it.map(|t| enc(&t)).collect()), &$w, line!()),
    1 => same(&flat($it.fold_each(|c, v| $f(c, v.val())).collect()), &$w, line!()),
    2 => { let e = $e(Ord::Bfs); seq($it.bfs_each(), &e, line!()) }
    3 => { let e = $e(Ord::Post); ctx_seq_mut($it.dfs_postorder_each().attach_context(), &e, true, line!()) }
    _ => same(&flat($it.into_pipeline().trees().map(|t| enc(&t)).collect()), &$w, line!()),
} } }
/// One *_each operation after another; the result is a collection of trees like any other (n-ary only).
macro_rules! chain { ($name:ident $picks:ident $mks:ident $bin:literal $f:ident $tb:tt) => {
    pub fn $name() {
        let f = $picks(3, param(4));
        let (s1, s2, way) = (any_stage(), any_stage(), choice(5));
        let again = |f: Vec<(usize, M)>| { let mut o = Vec::new(); for (_, m) in f { o.push((o.len(), m)); } o };
        let f1 = again(stage_each(&number(&f), 0, $bin, s1));
        let f2 = again(stage_each(&f1, 0, $bin, s2));
        let w = encs(&f2, 0, false, $bin);
        if f1.len() != f.len() && f2.len() > 0 { cover(1); }
        let e = |o: Ord| { let mut r = Vec::new(); for (i, m) in &f2 { r.extend(order(m, $bin, o, Some(*i))); } r };
        also!($mks::<u32>(&f), s1, $tb, also2 s2, $tb, e w $bin $f way);
    }
} }
chain!(c17_chain_n picks_n mks_n false fold_n [::<()>]);
macro_rules! two { ($name:ident $nums:ident $mks:ident $bin:literal $f:ident $fp:ident) => {
    /// Two stages on longer collections with distinct values.
    pub fn $name() {
        let f = $nums(param(5));
        let (s1, s2, t) = (any_stage(), any_stage(), 2);
        let f0 = number(&f);
        let f1 = stage_each(&f0, 0, $bin, s1);
        let k1 = ($bin && f1.len() != f0.len()) as usize;
        let f2 = stage_each(&f1, k1, $bin, s2);
        let k2 = ($bin && f2.len() != f0.len()) as usize;
        let want = encs(&f2, k2, true, $bin);
        if f2.len() > 1 { cover(2); }
        let got = then!($mks::<u32>(&f).into_pipeline(), s1, 0, second s2, k1, t k2 $f $fp);
        same(&got, &want, line!());
    }
} }
two!(c17_two_n numbered_forest_n mks_n false fold_n foldp_n);
two!(c17_two_b numbered_forest_b mks_b true fold_b foldp_b);
macro_rules! walk { ($it:expr, $e:ident $cut:ident $k:ident) => { steps_each($it, &$e, $cut, $k, line!()) } }
macro_rules! walk2 { ($it:expr, $s:expr, $sk:expr, $($x:tt)*) => { then!($it, $s, $sk, walk $($x)*) } }
fn orders(f: &[(usize, M)], bin: bool) -> Vec<Info> { let mut o = Vec::new(); for (i, m) in f { o.extend(order(m, bin, Ord::Pre, Some(*i))); } o }
/// The pipeline stepped by hand.
macro_rules! iter { ($name:ident $one:ident $forest:ident $picks:ident $mks:ident $bin:literal) => {
    pub fn $name() {
        let f = $forest(3, param(3));
        let (s1, s2) = (any_stage(), any_stage());
        let f0 = number(&f);
        let f1 = stage_each(&f0, 0, $bin, s1);
        let k1 = ($bin && f1.len() != f0.len()) as usize;
        let f2 = stage_each(&f1, k1, $bin, s2);
        let k2 = ($bin && f2.len() != f0.len()) as usize;
        let e = orders(&f2, $bin);
        let cut = choice(e.len() + 1);
        if f2.len() > 1 { cover(2); }
        then!($mks::<u32>(&f).into_pipeline(), s1, 0, walk2 s2, k1, e cut k2);
    }
    pub fn $one() {
        let f = $picks(3, param(1));
        let s = if choice(2) == 0 { Stage::None } else { any_stage() };
        let f0 = number(&f);
        let f1 = stage_each(&f0, 0, $bin, s);
        let k = ($bin && f1.len() != f0.len()) as usize;
        let e = orders(&f1, $bin);
        let cut = if e.len() > 6 { choice(3) * e.len() / 2 } else { choice(e.len() + 1) };
        if f1.len() > 1 { cover(2); }
        let mut t = $mks::<u32>(&f);
        then!((&t).into_pipeline_ref(), s, 0, walk e cut k);
        then!((&mut t).into_pipeline_mut(), s, 0, walk e cut k);
        then!(t.into_pipeline(), s, 0, walk e cut k);
    }
} }
iter!(c17_iter_n c17_iter1_n forest_n picks_n mks_n false);
iter!(c17_iter_b c17_iter1_b forest_b picks_b mks_b true);
/// Very many trees: every other one removed (n-ary), then stages and a terminal operation given paths.
macro_rules! giant { ($name:ident $many:ident $bin:literal $kids:ty) => {
    pub fn $name() {
        let g = G { sh: Sh::Fan, n: param(0), base: 0, bin: $bin };
        let (end, how) = (choice(3), choice(3));
        #[allow(unused_mut)]
        let mut t = $many(&g);
        // nodes 1..=n are the roots; the last one has a child
        let ok = |p: &[usize], j: u32| {
            let i = (j as usize).min(g.n) - 1;
            chk!(p.len() == g.depth(j as usize) && p[0] == if $bin { i } else { i / 2 } && (p.len() == 1 || p[1] == 0));
        };
        let mut i = 0;
        macro_rules! go { ($it:expr) => { {
            let mut it = $it.prune(|v| !$bin && (v.val() as usize) < g.n && v.val() & 1 == 1).map_path(|p, v| { let v = v.val(); ok(p, v); v.wrapping_add(1) });
            match end {
                0 => while let Some(v) = it.next() { ok(it.current_path(), v - 1); chk!(it.current_depth() + 1 == it.current_path().len()); i += 1; },
                1 => for t in it.prune_path(|p, v| { ok(p, *v - 1); false }).trees() { chk!(t.value as usize - 1 > 0); i += 1 + (t.value as usize > g.n) as usize; },
                _ => for () in it.fold_path(|_: $kids, p: &[usize], v| { ok(p, v - 1); i += 1; }) {},
            }
        } } }
        match how { 0 => go!((&t).into_pipeline_ref()), 1 => go!((&mut t).into_pipeline_mut()), _ => go!(t.into_pipeline()) }
        chk!(i == if $bin { g.n + 1 } else { g.n / 2 + 1 });
        cover(1);
    }
} }
fn many_n(g: &G) -> Vec<Tree<u32>> { g.tree_n::<u32>().children }
fn many_b(g: &G) -> Vec<BinaryTree<u32>> {
    let node = |j, left| BinaryTree { value: g.val(j), left, right: None };
    shard();
    let mut o = Vec::new();
    for j in 1..g.n { o.push(node(j, None)); }
    o.push(node(g.n, Some(alloc::boxed::Box::new(node(g.n + 1, None)))));
    o
}
giant!(c17_giant_n many_n false Vec<()>);
giant!(c17_giant_b many_b true [Option<()>; 2]);
entries!(c17_giant_n, c17_giant_b, c17_chain_n, c17_two_n, c17_two_b, c17_iter_n, c17_iter_b, c17_iter1_n, c17_iter1_b, c17_own_n, c17_own_b, c17_src_n, c17_src_b, c17_each_n, c17_each_b);
