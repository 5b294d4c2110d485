//! fold and fold_path of a single tree.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use core::mem::ManuallyDrop;
use tree_iterators_rs::prelude::*;
macro_rules! run { ($a:ident $b:ident $shape:ident $mk:ident $bin:literal $f:ident $fp:ident) => {
    pub fn $a() {
        let m = $shape();
        let n = m.size();
        let want = m.enc($bin);
        let mut t = $mk::<u32>(&m);
        { let mut k = 0; same(&t.fold_ref(|c, v| { k += 1; $f(c, v.val()) }), &want, line!()); chk!(k == n); }
        { let mut k = 0; same(&t.fold_mut(|c, v| { k += 1; $f(c, v.val()) }), &want, line!()); chk!(k == n); }
        { let mut k = 0; same(&t.fold(|c, v| { k += 1; $f(c, v.val()) }), &want, line!()); chk!(k == n); }
        cover(1);
    }
    pub fn $b() {
        let m = $shape();
        let n = m.size();
        let want = m.encp(None, $bin);
        let mut t = $mk::<u32>(&m);
        { let mut k = 0; same(&t.fold_path_ref(|c, p, v| { k += 1; $fp(c, p, v.val()) }), &want, line!()); chk!(k == n); }
        { let mut k = 0; same(&t.fold_path_mut(|c, p, v| { k += 1; $fp(c, p, v.val()) }), &want, line!()); chk!(k == n); }
        { let mut k = 0; same(&t.fold_path(|c, p, v| { k += 1; $fp(c, p, v.val()) }), &want, line!()); chk!(k == n); }
        cover(1);
    }
} }
run!(c15_fold_n c15_path_n shape_n mk_n false fold_n foldp_n);
run!(c15_fold_b c15_path_b shape_b mk_b true fold_b foldp_b);
macro_rules! giant { ($name:ident $pick:ident $mk:ident $count:ident) => {
    pub fn $name() {
        let mut g = G::$pick();
        g.base = 0;
        let byp = choice(2) == 1;
        let how = choice(3);
        #[allow(unused_mut)]
        let mut t = ManuallyDrop::new(g.$mk::<u32>());
        // every fold is handed the sizes of the subtrees below the node, in order
        let f = |c, v: u32| { let j = v as usize; $count(&g, c, j) };
        let fp = |c, p: &[usize], v: u32| { let j = v as usize; g.path_ok(p, 0, j, line!()); $count(&g, c, j) };
        let r = match (how, byp) {
            (0, false) => t.fold_ref(|c, v| f(c, *v)), (0, _) => t.fold_path_ref(|c, p, v| fp(c, p, *v)),
            (1, false) => t.fold_mut(|c, v| f(c, *v)), (1, _) => t.fold_path_mut(|c, p, v| fp(c, p, *v)),
            (_, false) => ManuallyDrop::into_inner(t).fold(f), _ => ManuallyDrop::into_inner(t).fold_path(fp),
        };
        chk!(r == (0, g.total()));
        cover(1);
    }
} }
fn count_n(g: &G, c: alloc::vec::Vec<(usize, usize)>, j: usize) -> (usize, usize) {
    let mut n = 1;
    for (i, k) in c.iter().enumerate() { chk!(k.0 == if j == 0 { i + 1 } else { j + 1 }); n += k.1; }
    chk!(g.leaf(j) == c.is_empty());
    (j, n)
}
fn count_b(g: &G, c: [Option<(usize, usize)>; 2], j: usize) -> (usize, usize) {
    let mut n = 1;
    for (i, k) in c.iter().enumerate() { if let Some(k) = k { chk!(g.depth(k.0) == g.depth(j) + 1 && g.anc(k.0, g.depth(j)) == j && g.seg(k.0, g.depth(j)) == i); n += k.1; } }
    chk!(g.leaf(j) == (c[0].is_none() && c[1].is_none()));
    (j, n)
}
giant!(c15_giant_n pick_n tree_n count_n);
giant!(c15_giant_b pick_b tree_b count_b);
entries!(c15_giant_n, c15_giant_b, c15_fold_n, c15_path_n, c15_fold_b, c15_path_b);
