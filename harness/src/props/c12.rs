//! at_path on trees and collections; at_path inverts the reported paths.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use alloc::vec::Vec;
use tree_iterators_rs::prelude::*;

/// The node of the model at a path of symbolic segments.
fn at<'a>(m: &'a M, p: &[usize]) -> Option<&'a M> {
    let mut cur = m;
    'o: for s in p {
        for c in &cur.ch { if c.0 == *s { cur = &c.1; continue 'o; } }
        return None;
    }
    Some(cur)
}
fn any_path(max: usize) -> Vec<usize> { let n = choice(max + 1); let mut p = Vec::new(); for _ in 0..n { p.push(v64() as usize); } p }
fn encm(m: &M, bin: bool) -> Vec<u64> { let mut o = Vec::new(); if bin { m.enc_b(&mut o) } else { m.enc_n(&mut o) }; o }
macro_rules! cmp { ($got:expr, $want:expr, $bin:literal) => { match ($got, $want) {
    (None, None) => cover(1),
    (Some(g), Some(w)) => { cover(2); same(&enc(&*g), &encm(w, $bin), line!()); }
    _ => chk!(false),
} } }
macro_rules! run { ($name:ident $coll:ident $arr:ident $rt:ident $gen:ident $forest:ident $mk:ident $mks:ident $bin:literal) => {
    pub fn $name() {
        let m = $gen(param(0));
        let p = any_path(param(4));
        let want = at(&m, &p);
        let mut t = $mk::<u32>(&m);
        cmp!(t.at_path_ref(&p), want, $bin);
        cmp!(t.at_path_mut(&p), want, $bin);
        cmp!(t.at_path(&p).as_ref(), want, $bin);
    }
    pub fn $coll() {
        let f = $forest(3, param(1));
        let p = any_path(param(4));
        let mut want = None;
        if p.len() > 0 { for i in 0..f.len() { if p[0] == i { want = at(&f[i], &p[1..]); } } }
        let mut t = $mks::<u32>(&f);
        cmp!((&t).at_path_ref(&p), want, $bin);
        cmp!(t.iter().at_path_ref(&p), want, $bin);
        cmp!((&mut t).at_path_mut(&p), want, $bin);
        cmp!(t.iter_mut().at_path_mut(&p), want, $bin);
        cmp!(t.at_path(&p).as_ref(), want, $bin);
    }
    pub fn $arr() {
        let mut l = param(2) - 2;
        let f = { let a = $arr::g(&mut l); let b = $arr::g(&mut l); [a, b] };
        let p = any_path(param(4));
        let mut want = None;
        if p.len() > 0 { for i in 0..2 { if p[0] == i { want = at(&f[i], &p[1..]); } } }
        let mut t = [$mk::<u32>(&f[0]), $mk::<u32>(&f[1])];
        cmp!($arr::slice(&t).at_path_ref(&p), want, $bin);
        cmp!((&mut t).at_path_mut(&p), want, $bin);
        cmp!(t.at_path(&p).as_ref(), want, $bin);
    }
    /// Every path reported while traversing, fed back to at_path, finds that very node.
    pub fn $rt() {
        let m = $gen(param(3));
        let mut t = $mk::<u32>(&m);
        for e in order(&m, $bin, Ord::Pre, None) {
            match t.at_path_ref(&e.path) {
                Some(n) => { chk_eq!(n.value, e.v); let mut k = enc(n); k.remove(0); same(&k, &e.kids, line!()); }
                None => chk!(false),
            }
            match t.at_path_mut(&e.path) { Some(n) => chk_eq!(n.value, e.v), None => chk!(false) }
            match t.clone().at_path(&e.path) { Some(n) => { let mut k = enc(&n); k.remove(0); same(&k, &e.kids, line!()); } None => chk!(false) }
        }
        cover(2);
    }
} }
mod c12_arr_n { pub use crate::model::gen_n as g; use tree_iterators_rs::prelude::*; pub fn slice<'a>(t: &'a [Tree<u32>; 2]) -> &'a [Tree<u32>] { t } }
mod c12_arr_b { pub use crate::model::gen_b as g; use tree_iterators_rs::prelude::*; pub fn slice<'a>(t: &'a [BinaryTree<u32>; 2]) -> &'a [BinaryTree<u32>; 2] { t } }
run!(c12_n c12_coll_n c12_arr_n c12_rt_n mid_n mids_n mk_n mks_n false);
run!(c12_b c12_coll_b c12_arr_b c12_rt_b mid_b mids_b mk_b mks_b true);
/// at_path all the way down a very deep tree and across a very wide one.
macro_rules! giant { ($name:ident $pick:ident $mk:ident) => {
    pub fn $name() {
        let g = G::$pick();
        let mut t = g.$mk::<u32>();
        let mut p = Vec::new();
        for j in [0, g.total() / 2, g.total() - 2, g.total() - 1] {
            p.clear();
            for d in 0..g.depth(j) { p.push(g.seg(j, d)); }
            match t.at_path_ref(&p) { None => chk!(false), Some(x) => chk_eq!(x.value, g.val(j)) }
            match t.at_path_mut(&p) { None => chk!(false), Some(x) => chk_eq!(x.value, g.val(j)) }
            p.push(g.n);
            chk!(t.at_path_ref(&p).is_none());
        }
        p.pop();
        match t.at_path(&p) { None => chk!(false), Some(x) => chk_eq!(x.value, g.val(g.total() - 1)) }
        cover(1);
    }
} }
giant!(c12_giant_n pick_n tree_n);
giant!(c12_giant_b pick_b tree_b);
entries!(c12_giant_n, c12_giant_b, c12_n, c12_coll_n, c12_arr_n, c12_rt_n, c12_b, c12_coll_b, c12_arr_b, c12_rt_b);
