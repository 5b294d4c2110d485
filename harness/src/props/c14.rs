//! map and map_path of a single tree.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use core::mem::ManuallyDrop;
use tree_iterators_rs::prelude::*;
macro_rules! run { ($a:ident $b:ident $shape:ident $mk:ident $bin:literal) => {
    pub fn $a() {
        let m = $shape();
        let n = m.size();
        let want = stage1(&Some(m.clone()), $bin, Stage::Map).unwrap().enc($bin);
        let mut t = $mk::<u32>(&m);
        { let mut k = 0; same(&enc(&t.map_ref(|v| { k += 1; mp(v.val()) })), &want, line!()); chk!(k == n); }
        { let mut k = 0; same(&enc(&t.map_mut(|v| { k += 1; mp(v.val()) })), &want, line!()); chk!(k == n); }
        { let mut k = 0; same(&enc(&t.map(|v| { k += 1; mp(v.val()) })), &want, line!()); chk!(k == n); }
        cover(1);
    }
    pub fn $b() {
        let m = $shape();
        let n = m.size();
        let want = stage1(&Some(m.clone()), $bin, Stage::MapPath).unwrap().enc($bin);
        let mut t = $mk::<u32>(&m);
        { let mut k = 0; same(&enc(&t.map_path_ref(|p, v| { k += 1; mpp(p, v.val()) })), &want, line!()); chk!(k == n); }
        { let mut k = 0; same(&enc(&t.map_path_mut(|p, v| { k += 1; mpp(p, v.val()) })), &want, line!()); chk!(k == n); }
        { let mut k = 0; same(&enc(&t.map_path(|p, v| { k += 1; mpp(p, v.val()) })), &want, line!()); chk!(k == n); }
        cover(1);
    }
} }
run!(c14_map_n c14_path_n shape_n mk_n false);
run!(c14_map_b c14_path_b shape_b mk_b true);
macro_rules! giant { ($name:ident $pick:ident $mk:ident $same:ident) => {
    pub fn $name() {
        let mut g = G::$pick();
        g.base = 0;
        let byp = choice(2) == 1;
        let how = choice(3);
        #[allow(unused_mut)]
        let mut t = ManuallyDrop::new(g.$mk::<u32>());
        let plus = v32();
        let f = |v: u32| v.wrapping_add(plus);
        let fp = |p: &[usize], v: u32| { g.path_ok(p, 0, v as usize, line!()); v.wrapping_add(plus) };
        let r = match (how, byp) {
            (0, false) => t.map_ref(|v| f(*v)), (0, _) => t.map_path_ref(|p, v| fp(p, *v)),
            (1, false) => t.map_mut(|v| f(*v)), (1, _) => t.map_path_mut(|p, v| fp(p, *v)),
            (_, false) => ManuallyDrop::into_inner(t).map(f), _ => ManuallyDrop::into_inner(t).map_path(fp),
        };
        g.$same(&r, &|j| f(j as u32), line!());
        core::mem::forget(r);
        cover(1);
    }
} }
giant!(c14_giant_n pick_n tree_n same_n);
giant!(c14_giant_b pick_b tree_b same_b);
entries!(c14_giant_n, c14_giant_b, c14_map_n, c14_path_n, c14_map_b, c14_path_b);
