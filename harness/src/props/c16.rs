//! Pipelines: any two stages in a row followed by any terminal operation, on a single tree.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use alloc::vec::Vec;
use core::mem::ManuallyDrop;
use tree_iterators_rs::prelude::*;

fn any_stage() -> Stage {
    match choice(5) { 0 => Stage::Prune(v32()), 1 => Stage::PrunePath(v32()), 2 => Stage::Depth(v64() as usize), 3 => Stage::Map, _ => Stage::MapPath }
}
macro_rules! then { ($it:expr, $s:expr, $k:ident $($x:tt)*) => { match $s {
    Stage::Prune(t) => $k!($it.prune(move |v| pr(v.val(), t)), $($x)*),
    Stage::PrunePath(t) => $k!($it.prune_path(move |p, v| prp(p, v.val(), t)), $($x)*),
    Stage::Depth(d) => $k!($it.prune_depth(d), $($x)*),
    Stage::Map => $k!($it.map_tree(|v| mp(v.val())), $($x)*),
    Stage::MapPath => $k!($it.map_path(|p, v| mpp(p, v.val())), $($x)*),
    Stage::None => $k!($it, $($x)*),
} } }
macro_rules! second { ($it:expr, $s:expr, $($x:tt)*) => { then!($it, $s, term $($x)*) } }
macro_rules! term { ($it:expr, $t:ident $f:ident $fp:ident) => { match $t {
    0 => $it.collect_tree().map(|t| enc(&t)),
    1 => $it.fold_tree(|c, v| $f(c, v.val())),
    _ => $it.fold_path(|c, p, v| $fp(c, p, v.val())),
} } }
macro_rules! run { ($name:ident $big:ident $nums:ident $src:ident $gen:ident $mk:ident $bin:literal $f:ident $fp:ident) => {
    pub fn $name() {
        let m = $gen(param(0));
        let (s1, s2, t) = (any_stage(), any_stage(), choice(3));
        let r = stage1(&stage1(&Some(m.clone()), $bin, s1), $bin, s2);
        let want = r.map(|m| if t == 2 { m.encp(None, $bin) } else { m.enc($bin) });
        #[allow(unused_mut)]
        let mut tree = $mk::<u32>(&m);
        let got = then!(tree.$src(), s1, second s2, t $f $fp);
        cover(if want.is_none() { 1 } else { 2 });
        same_opt(got, want, line!());
    }
    /// Two stages on larger trees with distinct values.
    pub fn $big() {
        let m = $nums(param(4));
        let (s1, s2, t) = (any_stage(), any_stage(), choice(2));
        let t = if t == 0 { 0 } else { 2 };
        let r = stage1(&stage1(&Some(m.clone()), $bin, s1), $bin, s2);
        let want = r.map(|m| if t == 2 { m.encp(None, $bin) } else { m.enc($bin) });
        let got = then!($mk::<u32>(&m).$src(), s1, second s2, t $f $fp);
        cover(if want.is_none() { 1 } else { 2 });
        same_opt(got, want, line!());
    }
} }
run!(c16_own_n c16_two_n numbered_n into_pipeline any_n mk_n false fold_n foldp_n);
run!(c16_own_b c16_two_b numbered_b into_pipeline any_b mk_b true fold_b foldp_b);
/// One stage on the borrowed and mutable sources.
macro_rules! one { ($name:ident $src:ident $gen:ident $mk:ident $bin:literal $f:ident $fp:ident) => {
    pub fn $name() {
        let m = $gen(param(1));
        let (s, t) = (if choice(2) == 0 { Stage::None } else { any_stage() }, choice(3));
        let want = stage1(&Some(m.clone()), $bin, s).map(|m| if t == 2 { m.encp(None, $bin) } else { m.enc($bin) });
        #[allow(unused_mut)]
        let mut tree = $mk::<u32>(&m);
        let got = then!(tree.$src(), s, term t $f $fp);
        cover(if want.is_none() { 1 } else { 2 });
        same_opt(got, want, line!());
    }
} }
one!(c16_one_n into_pipeline pick_n mk_n false fold_n foldp_n);
one!(c16_one_b into_pipeline pick_b mk_b true fold_b foldp_b);
one!(c16_ref_n into_pipeline_ref pick_n mk_n false fold_n foldp_n);
one!(c16_mut_n into_pipeline_mut pick_n mk_n false fold_n foldp_n);
one!(c16_ref_b into_pipeline_ref pick_b mk_b true fold_b foldp_b);
one!(c16_mut_b into_pipeline_mut pick_b mk_b true fold_b foldp_b);
/// Three stages: what the later ones are told after two prunes.
macro_rules! three { ($name:ident $gen:ident $mk:ident $bin:literal $fp:ident) => {
    pub fn $name() {
        let m = $gen(param(2));
        let (a, b, c) = (v32(), v32(), v32());
        let k = choice(3);
        let r = stage1(&Some(m.clone()), $bin, Stage::Prune(a));
        let want = match k {
            0 => stage1(&stage1(&r, $bin, Stage::PrunePath(b)), $bin, Stage::PrunePath(c)),
            1 => stage1(&stage1(&r, $bin, Stage::MapPath), $bin, Stage::PrunePath(c)),
            _ => stage1(&stage1(&r, $bin, Stage::PrunePath(b)), $bin, Stage::MapPath),
        }.map(|m| m.encp(None, $bin));
        let it = $mk::<u32>(&m).into_pipeline().prune(move |v| pr(v.val(), a));
        let got = match k {
            0 => it.prune_path(move |p, v| prp(p, v.val(), b)).prune_path(move |p, v| prp(p, v.val(), c)).fold_path(|c, p, v| $fp(c, p, v.val())),
            1 => it.map_path(move |p, v| mpp(p, v.val())).prune_path(move |p, v| prp(p, v.val(), c)).fold_path(|c, p, v| $fp(c, p, v.val())),
            _ => it.prune_path(move |p, v| prp(p, v.val(), b)).map_path(move |p, v| mpp(p, v.val())).fold_path(|c, p, v| $fp(c, p, v.val())),
        };
        cover(if want.is_none() { 1 } else { 2 });
        same_opt(got, want, line!());
    }
} }
three!(c16_three_n any_n mk_n false foldp_n);
three!(c16_three_b any_b mk_b true foldp_b);
macro_rules! walk { ($it:expr, $e:ident $cut:ident) => { steps($it, &$e, $cut, 0, line!()) } }
macro_rules! walk2 { ($it:expr, $s:expr, $($x:tt)*) => { then!($it, $s, walk $($x)*) } }
/// The pipeline stepped by hand: what each step tells about the node it is at.
macro_rules! iter { ($name:ident $one:ident $gen:ident $pick:ident $mk:ident $bin:literal) => {
    pub fn $name() {
        let m = $gen(param(3));
        let (s1, s2) = (any_stage(), any_stage());
        let e = match stage1(&stage1(&Some(m.clone()), $bin, s1), $bin, s2) { None => Vec::new(), Some(r) => order(&r, $bin, Ord::Pre, None) };
        let cut = choice(e.len() + 1);
        if e.is_empty() { cover(1); }
        if e.len() > 1 && cut < e.len() && !e[cut].leaf { cover(2); }
        then!($mk::<u32>(&m).into_pipeline(), s1, walk2 s2, e cut);
    }
    pub fn $one() {
        let m = $pick(param(1));
        let s = if choice(2) == 0 { Stage::None } else { any_stage() };
        let e = match stage1(&Some(m.clone()), $bin, s) { None => Vec::new(), Some(r) => order(&r, $bin, Ord::Pre, None) };
        let cut = if e.len() > 6 { choice(3) * e.len() / 2 } else { choice(e.len() + 1) };
        if e.is_empty() { cover(1); }
        if e.len() > 1 && cut < e.len() && !e[cut].leaf { cover(2); }
        let mut t = $mk::<u32>(&m);
        then!(t.into_pipeline_ref(), s, walk e cut);
        then!(t.into_pipeline_mut(), s, walk e cut);
        then!(t.into_pipeline(), s, walk e cut);
    }
} }
iter!(c16_iter_n c16_iter1_n any_n pick_n mk_n false);
iter!(c16_iter_b c16_iter1_b any_b pick_b mk_b true);
/// A pipeline over a very wide, deep or large tree: odd children removed, then stages and a terminal operation given paths.
macro_rules! giant { ($name:ident $pick:ident $mk:ident $kids:ty) => {
    pub fn $name() {
        let mut g = G::$pick();
        g.base = 0;
        let fan = g.sh == Sh::Fan;
        let (end, how) = (choice(3), choice(3));
        let mut t = ManuallyDrop::new(g.$mk::<u32>());
        let ok = |p: &[usize], j: u32| if fan {
            chk!(p.len() == (j > 0) as usize && (j == 0 || p[0] == j as usize / 2 - 1));
        } else { g.path_ok(p, 0, j as usize, line!()) };
        let mut i = 0;
        macro_rules! go { ($it:expr) => { {
            let mut it = $it.prune(|v| fan && v.val() & 1 == 1).map_path(|p, v| { let v = v.val(); ok(p, v); v.wrapping_add(1) });
            match end {
                0 => while let Some(v) = it.next() { ok(it.current_path(), v - 1); chk!(it.current_depth() == it.current_path().len()); i += 1; },
                1 => core::mem::forget(it.prune_path(|p, v| { ok(p, *v - 1); i += 1; false }).collect_tree()),
                _ => { it.fold_path(|_: $kids, p: &[usize], v| { ok(p, v - 1); i += 1; }); }
            }
        } } }
        match how { 0 => go!(t.into_pipeline_ref()), 1 => go!(t.into_pipeline_mut()), _ => go!(ManuallyDrop::into_inner(t).into_pipeline()) }
        chk!(i == if fan { g.n / 2 + 1 } else { g.total() });
        cover(1);
    }
} }
giant!(c16_giant_n pick_n tree_n Vec<()>);
giant!(c16_giant_b pick_b tree_b [Option<()>; 2]);
entries!(c16_giant_n, c16_giant_b, c16_two_n, c16_two_b, c16_iter_n, c16_iter_b, c16_iter1_n, c16_iter1_b, c16_own_n, c16_own_b, c16_one_n, c16_one_b, c16_ref_n, c16_mut_n, c16_ref_b, c16_mut_b, c16_three_n, c16_three_b);
