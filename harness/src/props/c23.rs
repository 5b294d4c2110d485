//! Clone, ==, cloned(), Default, and collecting an untouched pipeline.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use alloc::vec::Vec;
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;
fn equal(a: &M, b: &M, bin: bool) -> bool {
    let (x, y) = (a.enc(bin), b.enc(bin));
    if x.len() != y.len() { return false; }
    let mut r = true;
    for i in 0..x.len() { r &= x[i] == y[i]; }
    r
}
fn alter(m: &mut M, p: &[usize], op: usize, bin: bool) {
    if p.is_empty() {
        match op {
            0 => m.v = v32(),
            1 => { m.ch.pop(); }
            2 => if bin && m.ch.len() == 1 { m.ch[0].0 ^= 1 } else if !bin { m.ch.insert(0, (0, leaf())) },
            _ => {}
        }
        return;
    }
    for c in m.ch.iter_mut() { if c.0 == p[0] { alter(&mut c.1, &p[1..], op, bin); return; } }
}
/// A value that, like a NaN, may differ from itself.
#[derive(Clone)]
struct Nan(u32);
impl From<u32> for Nan { fn from(v: u32) -> Nan { Nan(v) } }
impl PartialEq for Nan { fn eq(&self, o: &Nan) -> bool { self.0 == o.0 && self.0 != 0 } }
macro_rules! run { ($cl:ident $eq:ident $col:ident $ctx:ident $any:ident $small:ident $mk:ident $mks:ident $bin:literal $ty:ident $f:ident; $($i:literal $ord:ident $o:ident $r:ident),*; $no:literal) => {
    pub fn $cl() {
        leak_check(true);
        let m = $any(param(0));
        let want = m.enc($bin);
        let mut t = $mk::<u32>(&m);
        let c = t.clone();
        same(&enc(&c), &want, line!());
        // the copy is independent
        let x = v32();
        let mut n = m.clone();
        n.v = x;
        t.value = x;
        same(&enc(&c), &want, line!());
        same(&enc(&t), &n.enc($bin), line!());
        // borrowed trees of references clone into owned trees
        let r: $ty<&u32> = c.map_ref(|v| v);
        let rc: $ty<u32> = r.cloned();
        same(&enc(&rc), &want, line!());
        drop(rc);
        same(&enc(&r), &want, line!());
        let mut c = c;
        let r: $ty<&mut u32> = c.map_mut(|v| v);
        let rc: $ty<u32> = r.cloned();
        same(&enc(&rc), &want, line!());
        // boxed values: every clone owns its own
        let b = $mk::<alloc::boxed::Box<u32>>(&m);
        let b2 = b.clone();
        drop(b);
        same(&enc(&b2), &want, line!());
        // overwriting a tree by a clone frees what it held
        let other = $small(param(1));
        let mut b3 = $mk::<alloc::boxed::Box<u32>>(&other);
        b3.clone_from(&b2);
        same(&enc(&b3), &want, line!());
        b3 = $mk::<alloc::boxed::Box<u32>>(&other);
        let mut b2 = b2;
        b2.clone_from(&b3);
        same(&enc(&b2), &other.enc($bin), line!());
        drop(b3);
        same(&enc(&b2), &other.enc($bin), line!());
        let d: $ty<u32> = Default::default();
        chk!(d.value == 0 && enc(&d).len() == M { v: 0, ch: Vec::new() }.enc($bin).len());
        cover(1);
    }
    pub fn $eq() {
        // any two trees, or a larger one and a copy that differs at one node
        let a = $any(param(1));
        let b = if a.size() <= param(1) { $small(param(1)) } else { let n = order(&a, $bin, Ord::Pre, None); let mut b = a.clone(); alter(&mut b, &n[at(n.len())].path, choice(4), $bin); b };
        let want = equal(&a, &b, $bin);
        let (x, y) = ($mk::<u32>(&a), $mk::<u32>(&b));
        chk!((x == y) == want);
        chk!((x != y) != want);
        chk!(x == x.clone());
        // values decide, even when a tree is compared with itself
        if a.size() <= param(1) {
            let mut refl = true;
            for i in order(&a, $bin, Ord::Pre, None) { refl &= i.v != 0; }
            let x = $mk::<Nan>(&a);
            #[allow(clippy::eq_op)]
            { chk!((x == x) == refl); }
            chk!((x != x.clone()) == !refl);
        }
        cover(if want { 1 } else { 2 });
    }
    /// A pipeline without stages collects back into the same tree(s).
    pub fn $col() {
        leak_check(true);
        let m = $any(param(0));
        let want = m.enc($bin);
        let mut t = $mk::<u32>(&m);
        same_opt(t.into_pipeline_ref().collect_tree().map(|t| enc(&t)), Some(want.clone()), line!());
        same_opt(t.into_pipeline_mut().collect_tree().map(|t| enc(&t)), Some(want.clone()), line!());
        same_opt(t.into_pipeline().collect_tree().map(|t| enc(&t)), Some(want), line!());
        cover(1);
    }
    /// A cloned context is a snapshot: advancing the stream does not change it.
    pub fn $ctx() {
        leak_check(true);
        let m = $any(param(1));
        let op = choice($no);
        $( if op == $i {
            let e = order(&m, $bin, Ord::$ord, None);
            let t = $mk::<u32>(&m);
            let mut it = t.$r().attach_context();
            let mut kept = Vec::new();
            while let Some(c) = it.next() { kept.push(c.clone()); }
            drop(it);
            chk!(kept.len() == e.len());
            for i in 0..kept.len() { same_ctx(&kept[i], &e[i], false, line!()); }
            let mut it = t.$o().attach_context();
            let mut kept = Vec::new();
            while let Some(c) = it.next() { kept.push(c.clone()); }
            drop(it);
            chk!(kept.len() == e.len());
            for i in 0..kept.len() { same_ctx(&kept[i], &e[i], false, line!()); }
        } )*
        cover(1);
    }
} }
run!(c23_clone_n c23_eq_n c23_collect_n c23_ctx_n mid_n any_n mk_n mks_n false Tree fold_n; 0 Bfs bfs bfs_iter, 1 Pre dfs_preorder dfs_preorder_iter, 2 Post dfs_postorder dfs_postorder_iter; 3);
run!(c23_clone_b c23_eq_b c23_collect_b c23_ctx_b mid_b any_b mk_b mks_b true BinaryTree fold_b; 0 Bfs bfs bfs_iter, 1 Pre dfs_preorder dfs_preorder_iter, 2 Post dfs_postorder dfs_postorder_iter, 3 In dfs_inorder dfs_inorder_iter; 4);
/// Wide and large trees: clones are equal, trees that differ in their last node are not.
pub fn c23_giant_n() {
    let g = G { sh: Sh::Fan, n: param(0), base: v32(), bin: false };
    let t = g.tree_n::<u32>();
    let mut c = t.clone();
    g.same_n(&c, &|j| g.val(j), line!());
    chk!(t == c);
    let k = g.n - 1;
    c.children[k].children[0].value ^= 1;
    chk!(t != c);
    c.clone_from(&t);
    chk!(t == c);
    c.children[k].children.clear();
    chk!(t != c);
    c.children.pop();
    chk!(t != c);
    cover(1);
}
pub fn c23_giant_b() {
    let g = G { sh: Sh::Full, n: param(1), base: v32(), bin: true };
    let t = g.tree_b::<u32>();
    let mut c = t.clone();
    g.same_b(&c, &|j| g.val(j), line!());
    chk!(t == c);
    let mut x = &mut c;
    while x.right.as_ref().unwrap().right.is_some() { x = x.right.as_mut().unwrap(); }
    x.right.as_mut().unwrap().value ^= 1;
    chk!(t != c);
    c.clone_from(&t);
    chk!(t == c);
    cover(1);
}
/// What a derived Debug prints.
mod mirror {
    use alloc::{boxed::Box, vec::Vec};
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct Tree<T> { pub value: T, pub children: Vec<Tree<T>> }
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct BinaryTree<T> { pub value: T, pub left: Option<Box<BinaryTree<T>>>, pub right: Option<Box<BinaryTree<T>>> }
}
struct Shown(u32);
impl From<u32> for Shown { fn from(v: u32) -> Shown { Shown(v) } }
impl core::fmt::Debug for Shown {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("<")?; f.write_str(core::str::from_utf8(&[b'a' + (self.0 & 15) as u8]).unwrap_or("?"))?; f.write_str(">") }
}
fn mirror_n(m: &M) -> mirror::Tree<Shown> { mirror::Tree { value: Shown(m.v), children: m.ch.iter().map(|c| mirror_n(&c.1)).collect() } }
fn mirror_b(m: &M) -> mirror::BinaryTree<Shown> {
    let side = |k| m.ch.iter().find(|c| c.0 == k).map(|c| alloc::boxed::Box::new(mirror_b(&c.1)));
    mirror::BinaryTree { value: Shown(m.v), left: side(0), right: side(1) }
}
macro_rules! shown { ($name:ident $any:ident $mk:ident $mirror:ident) => {
    pub fn $name() {
        let m = $any(param(0));
        let (t, w) = ($mk::<Shown>(&m), $mirror(&m));
        let (a, b) = if choice(2) == 0 { (alloc::format!("{:?}", t), alloc::format!("{:?}", w)) } else { (alloc::format!("{:#?}", t), alloc::format!("{:#?}", w)) };
        let (a, b) = (a.as_bytes(), b.as_bytes());
        chk!(a.len() == b.len());
        let mut r = true;
        for i in 0..a.len() { r &= a[i] == b[i]; }
        chk!(r);
        cover(1);
    }
} }
shown!(c23_shown_n any_n mk_n mirror_n);
shown!(c23_shown_b any_b mk_b mirror_b);
entries!(c23_shown_n, c23_shown_b, c23_giant_n, c23_giant_b, c23_clone_n, c23_eq_n, c23_collect_n, c23_ctx_n, c23_clone_b, c23_eq_b, c23_collect_b, c23_ctx_b);
