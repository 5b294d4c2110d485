//! Symbolic trees and the reference model every property is compared against.
//! The model is a plain recursive description; nothing in it uses the library's iterators.
use crate::sym::*;
use alloc::boxed::Box;
use alloc::vec::Vec;
#[allow(unused_imports)]
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

#[macro_export]
macro_rules! chk { ($e:expr) => { $crate::sym::check($e, line!()) }; }
#[macro_export]
macro_rules! chk_eq { ($a:expr, $b:expr) => { $crate::sym::check_eq($a as u64, $b as u64, line!()) }; }
/// Registers the entry points of a property module.
#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        pub const LIST: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
        #[cfg(not(feature = "native"))]
        pub mod exported { $( #[no_mangle] pub extern "C" fn $name() { super::$name() } )* }
    };
}

/// A model node: value and children with the slot they occupy
/// (index for n-ary nodes, 0 = left / 1 = right for binary nodes).
#[derive(Clone)]
pub struct M {
    pub v: u32,
    pub ch: Vec<(usize, M)>,
}
pub fn leaf() -> M { M { v: v32(), ch: Vec::new() } }

pub fn gen_n(left: &mut usize) -> M {
    let mut m = leaf();
    while *left > 0 && choice(2) == 1 {
        *left -= 1;
        let s = m.ch.len();
        m.ch.push((s, gen_n(left)));
    }
    m
}
pub fn gen_b(left: &mut usize) -> M {
    let mut m = leaf();
    for s in 0..2 {
        if *left > 0 && choice(2) == 1 {
            *left -= 1;
            m.ch.push((s, gen_b(left)));
        }
    }
    m
}
/// Every n-ary shape with at most `n` nodes, symbolic values.
pub fn any_n(n: usize) -> M { let mut l = n - 1; gen_n(&mut l) }
/// Every binary shape with at most `n` nodes, symbolic values.
pub fn any_b(n: usize) -> M { let mut l = n - 1; gen_b(&mut l) }
/// A spine of `d` edges; spine child sits at `pos` among `w` children.
fn spine(d: usize, w: usize, pos: usize) -> M {
    let mut m = leaf();
    if d > 0 {
        for s in 0..w { m.ch.push((s, if s == pos { spine(d - 1, w, pos) } else { leaf() })); }
    }
    m
}
fn spine_b(d: usize, mode: usize) -> M {
    let mut m = leaf();
    if d > 0 {
        let s = match mode { 0 | 2 => 0, 1 | 3 => 1, _ => d & 1 };
        let other = mode == 2 || mode == 3;
        for i in 0..2 { if i == s { m.ch.push((i, spine_b(d - 1, mode))); } else if other { m.ch.push((i, leaf())); } }
    }
    m
}
fn full(d: usize, w: usize) -> M {
    let mut m = leaf();
    if d > 0 { for s in 0..w { m.ch.push((s, full(d - 1, w))); } }
    m
}
/// A size up to `big`, or one of two larger ones.
fn size_to(big: usize, huge: u32) -> usize {
    let h = param(huge);
    let k = choice(big + if h > 0 { 2 } else { 0 });
    if k < big { k + 1 } else if k == big { 33 } else { h }
}
/// Two chains side by side below one root.
fn fork(a: usize, b: usize, mode: usize) -> M {
    let mut m = leaf();
    m.ch.push((0, spine_b(a, mode)));
    m.ch.push((1, spine_b(b, mode ^ 1)));
    m
}
fn fork_n(a: usize, b: usize) -> M {
    let mut m = leaf();
    m.ch.push((0, spine(a, 1, 0)));
    m.ch.push((1, leaf()));
    m.ch.push((2, spine(b, 1, 0)));
    m
}
/// A chain ending in a fan.
fn broom(d: usize, w: usize) -> M {
    let mut m = leaf();
    if d > 0 { m.ch.push((0, broom(d - 1, w))); if d & 1 == 0 { m.ch.push((1, leaf())); } } else { for s in 0..w { m.ch.push((s, leaf())); } }
    m
}
/// A wide node; in mode 1 its first, middle and last children have children (and the last a grandchild).
fn fan(w: usize, mode: usize) -> M {
    let mut m = leaf();
    for s in 0..w {
        let mut c = leaf();
        if mode == 1 && (s == 0 || s == w / 2 || s + 1 == w) {
            c.ch.push((0, leaf()));
            c.ch.push((1, spine((s + 1 == w) as usize, 1, 0)));
        }
        m.ch.push((s, c));
    }
    m
}
/// A fixed irregular tree of `n` nodes, a different one for each seed; symbolic values.
fn ragged(seed: usize, n: usize, wide: bool) -> M {
    let mut r = seed as u32 * 7919 + 12345;
    let mut m = leaf();
    let deep = seed % 3;
    let mut k = 1;
    while k < n {
        let mut at = &mut m;
        loop {
            r = r.wrapping_mul(1664525).wrapping_add(1013904223);
            let x = (r >> 16) as usize;
            let cap = if wide { 2 + seed % 4 } else { 2 };
            if wide {
                let l = at.ch.len();
                if l == 0 || (l < cap && x % (2 + deep) == 0) { at.ch.push((l, leaf())); break; }
                at = &mut at.ch[x / 8 % l].1;
            } else {
                let s = x / 8 % 2;
                let i = match at.ch.iter().position(|c| c.0 == s) { Some(i) => i, None => { let i = if s == 0 { 0 } else { at.ch.len() }; at.ch.insert(i, (s, leaf())); break; } };
                at = &mut at.ch[i].1;
            }
        }
        k += 1;
    }
    m
}
/// Every shape with at most p0 nodes, plus long, wide, forked and bushy families up to p1 (and p5 deep, p6 wide).
pub fn shape_n() -> M {
    let (n, big) = (param(0), param(1));
    if big == 0 { return any_n(n); }
    match choice(8 + (param(8) > 0) as usize) {
        0 => any_n(n),
        1 => { let d = size_to(big, 5); spine(d, 1, 0) }
        2 => { let w = size_to(big, 6); fan(w, choice(2)) }
        3 => { let d = 1 + choice(big / 3 + 1); spine(d, 2, choice(2)) }
        4 => { let d = 1 + choice(big / 5 + 1); spine(d, 3, choice(3)) }
        5 => { let a = choice(big / 4 + 1); fork_n(a, choice(big / 4 + 1)) }
        6 => { let a = 1 + choice(big / 4); broom(a, 2 + choice(big / 4)) }
        7 => { cover(90); let k = choice(if param(5) > 0 { 5 } else { 3 }); let (d, w) = [(3, 2), (2, 3), (2, 4), (3, 5), (7, 2)][k]; full(d, w) }
        _ => { cover(93); ragged(choice(param(8)), param(9), true) }
    }
}
pub fn shape_b() -> M {
    let (n, big) = (param(0), param(1));
    if big == 0 { return any_b(n); }
    match choice(4 + (param(8) > 0) as usize) {
        0 => any_b(n),
        1 => { let m = choice(5); let d = size_to(big, 5); spine_b(d, m) }
        2 => { let m = choice(5); let a = choice(big / 4 + 1); fork(a, choice(big / 4 + 1), m) }
        3 => { cover(91); let k = choice(if param(5) > 0 { 3 } else { 2 }); full([3, 4, 7][k], 2) }
        _ => { cover(93); ragged(choice(param(8)), param(9), false) }
    }
}
fn renumber(m: &mut M, n: &mut u32, mode: usize) {
    let i = *n;
    *n += 1;
    m.v = match mode { 0 => i, 1 => 1000 - i, _ => i * 37 % 101 };
    for c in m.ch.iter_mut() { renumber(&mut c.1, n, mode); }
}
/// Larger shapes with distinct concrete values: a threshold divides their nodes in few ways, in three different orders.
pub fn numbered_n(w: usize) -> M {
    let mut m = match choice(6) {
        0 => spine(w / 2, 1, 0),
        1 => fan(w, 0),
        2 => fan(w / 2, 1),
        3 => spine(w / 4, 3, 1),
        4 => broom(w / 4, w / 3),
        _ => full(2, 3),
    };
    renumber(&mut m, &mut 0, choice(3));
    m
}
pub fn numbered_b(w: usize) -> M {
    let mut m = match choice(5) {
        0 => spine_b(w / 2, 4),
        1 => spine_b(w / 3, 2),
        2 => spine_b(w / 3, 3),
        3 => fork(w / 3, w / 4, 0),
        _ => full(3, 2),
    };
    renumber(&mut m, &mut 0, choice(3));
    m
}
pub fn numbered(m: &mut M) { renumber(m, &mut 0, 2) }
fn renumber_all(f: &mut Vec<M>) { let mode = choice(3); let mut n = 0; for m in f.iter_mut() { renumber(m, &mut n, mode); } }
/// Collections of more and larger trees: `w` trees, some with a few nodes below them.
fn longer(w: usize, wide: bool) -> Vec<M> {
    let mut f = Vec::new();
    for i in 0..w {
        let mut m = leaf();
        if i % 3 == 1 || i + 1 == w { m.ch.push((0, leaf())); }
        if i % 5 == 2 || i + 2 == w { m.ch.push((1, spine_b(2, 4))); }
        if wide { unslot(&mut m); }
        f.push(m);
    }
    f
}
/// Binary slots to n-ary indices.
fn unslot(m: &mut M) { for (k, c) in m.ch.iter_mut().enumerate() { c.0 = k; unslot(&mut c.1); } }
/// Collections up to (t, n) with symbolic values, or (p5, p6) trees of a fixed pattern.
pub fn forests_n(t: usize, n: usize) -> Vec<M> {
    if param(6) == 0 { return forest_n(t, n); }
    match choice(3) { 0 => forest_n(t, n), 1 => longer(t + choice(param(5)), true), _ => { cover(90); longer(param(6), true) } }
}
pub fn forests_b(t: usize, n: usize) -> Vec<M> {
    if param(6) == 0 { return forest_b(t, n); }
    match choice(3) { 0 => forest_b(t, n), 1 => longer(t + choice(param(5)), false), _ => { cover(91); longer(param(6), false) } }
}
/// Up to `n` nodes with symbolic values, or one of the larger numbered shapes (p7).
pub fn pick_n(n: usize) -> M { if param(7) > 0 && choice(2) == 1 { cover(92); numbered_n(param(7)) } else { any_n(n) } }
pub fn pick_b(n: usize) -> M { if param(7) > 0 && choice(2) == 1 { cover(92); numbered_b(param(7)) } else { any_b(n) } }
pub fn picks_n(t: usize, n: usize) -> Vec<M> { if param(7) > 0 && choice(2) == 1 { cover(92); numbered_forest_n(t + 1 + choice(param(7))) } else { forest_n(t, n) } }
pub fn picks_b(t: usize, n: usize) -> Vec<M> { if param(7) > 0 && choice(2) == 1 { cover(92); numbered_forest_b(t + 1 + choice(param(7))) } else { forest_b(t, n) } }
pub fn numbered_forest_n(w: usize) -> Vec<M> { let mut f = longer(w, true); renumber_all(&mut f); f }
pub fn numbered_forest_b(w: usize) -> Vec<M> { let mut f = longer(w, false); renumber_all(&mut f); f }
/// Up to `n` nodes, or (p7 > 0) one of the larger shapes: families of size p7, a chain of a third of p6 and a fan of p6, p8 irregular trees of p9 nodes.
pub fn mid_n(n: usize) -> M {
    let w = param(7);
    if w == 0 || choice(2) == 0 { return any_n(n); }
    cover(94);
    match choice(9 + param(8)) {
        0 => spine(w, 1, 0),
        1 => spine(param(6) / 3, 1, 0),
        2 => fan(w, 1),
        3 => fan(param(6), 1),
        4 => spine(w / 3, 3, 1),
        5 => broom(w / 2, w / 3),
        6 => fork_n(w / 3, w / 2),
        7 => full(3, 2),
        8 => full(2, 4),
        k => ragged(k - 9, param(9), true),
    }
}
pub fn mid_b(n: usize) -> M {
    let w = param(7);
    if w == 0 || choice(2) == 0 { return any_b(n); }
    cover(94);
    match choice(9 + param(8)) {
        0 => spine_b(w, 0),
        1 => spine_b(w, 1),
        2 => spine_b(w, 2),
        3 => spine_b(w, 3),
        4 => spine_b(param(6) / 3, 4),
        5 => spine_b(param(6) / 3, 0),
        6 => fork(w / 2, w / 3, 4),
        7 => fork(w / 3, w / 2, 2),
        8 => full(4, 2),
        k => ragged(k - 9, param(9), false),
    }
}
pub fn mids_n(t: usize, n: usize) -> Vec<M> { if param(7) > 0 && choice(2) == 1 { cover(94); longer([4, 7, param(7)][choice(3)], true) } else { forest_n(t, n) } }
pub fn mids_b(t: usize, n: usize) -> Vec<M> { if param(7) > 0 && choice(2) == 1 { cover(94); longer([4, 7, param(7)][choice(3)], false) } else { forest_b(t, n) } }
/// A position among `len`.
pub fn at(len: usize) -> usize {
    if len <= 20 { return choice(len); }
    match choice(5) { 0 => 0, 1 => 1, 2 => len / 2, 3 => len - 2, _ => len - 1 }
}
/// A number of steps into a traversal of `len` nodes (or past its end).
pub fn point(len: usize) -> usize {
    if len <= 20 { return choice(len + 2); }
    match choice(7) { 0 => 0, 1 => 1, 2 => 2, 3 => len / 2, 4 => len - 1, 5 => len, _ => len + 1 }
}
/// A forest: at most `t` trees, at most `n` nodes in total.
pub fn forest_n(t: usize, n: usize) -> Vec<M> {
    let mut v = Vec::new();
    let mut left = n;
    while v.len() < t && left > 0 && choice(2) == 1 { left -= 1; v.push(gen_n(&mut left)); }
    v
}
pub fn forest_b(t: usize, n: usize) -> Vec<M> {
    let mut v = Vec::new();
    let mut left = n;
    while v.len() < t && left > 0 && choice(2) == 1 { left -= 1; v.push(gen_b(&mut left)); }
    v
}

impl M {
    pub fn size(&self) -> usize { let mut n = 1; for c in &self.ch { n += c.1.size(); } n }
    /// Token encoding of an n-ary tree: value, number of children, children.
    pub fn enc_n(&self, o: &mut Vec<u64>) {
        o.push(self.v as u64);
        o.push(self.ch.len() as u64);
        for c in &self.ch { c.1.enc_n(o); }
    }
    pub fn slot(&self, s: usize) -> Option<&M> { for c in &self.ch { if c.0 == s { return Some(&c.1); } } None }
    /// Token encoding of a binary tree: value, then for both sides presence and subtree.
    pub fn enc_b(&self, o: &mut Vec<u64>) {
        o.push(self.v as u64);
        for s in 0..2 { match self.slot(s) { None => o.push(0), Some(c) => { o.push(1); c.enc_b(o) } } }
    }
    fn kids(&self, bin: bool) -> Vec<u64> {
        let mut k = Vec::new();
        if bin { self.enc_b(&mut k); } else { self.enc_n(&mut k); }
        k.remove(0);
        k
    }
}

/// What the reference model says about one node.
#[derive(Clone)]
pub struct Info {
    pub v: u32,
    pub path: Vec<usize>,
    pub anc: Vec<u32>,
    pub kids: Vec<u64>,
    pub leaf: bool,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Ord { Bfs, Pre, In, Post }

fn visit(m: &M, path: &mut Vec<usize>, anc: &mut Vec<u32>, bin: bool, ord: Ord, level: usize, o: &mut Vec<Info>) {
    anc.push(m.v);
    let me = |path: &Vec<usize>, anc: &Vec<u32>| Info { v: m.v, path: path.clone(), anc: anc.clone(), kids: m.kids(bin), leaf: m.ch.is_empty() };
    if ord == Ord::Pre || (ord == Ord::Bfs && level == 0) { o.push(me(path, anc)); }
    if !(ord == Ord::Bfs && level == 0) {
        let mut done = ord != Ord::In;
        for (s, c) in &m.ch {
            if !done && *s == 1 { o.push(me(path, anc)); done = true; }
            path.push(*s);
            visit(c, path, anc, bin, ord, level.wrapping_sub(1), o);
            path.pop();
        }
        if !done { o.push(me(path, anc)); }
    }
    if ord == Ord::Post { o.push(me(path, anc)); }
    anc.pop();
}
fn depth(m: &M) -> usize { let mut d = 0; for c in &m.ch { d = d.max(1 + depth(&c.1)); } d }
/// The nodes of `m` in the order the traversal is specified to yield them.
pub fn order(m: &M, bin: bool, ord: Ord, prefix: Option<usize>) -> Vec<Info> {
    let mut o = Vec::new();
    let mut path = Vec::new();
    if let Some(p) = prefix { path.push(p); }
    let mut anc = Vec::new();
    if ord == Ord::Bfs {
        for l in 0..=depth(m) { visit(m, &mut path, &mut anc, bin, ord, l, &mut o); }
    } else {
        visit(m, &mut path, &mut anc, bin, ord, 0, &mut o);
    }
    o
}
pub fn order_each(f: &[M], bin: bool, ord: Ord) -> Vec<Info> {
    let mut o = Vec::new();
    for (i, m) in f.iter().enumerate() { o.extend(order(m, bin, ord, Some(i))); }
    o
}

pub fn mk_n<V: From<u32>>(m: &M) -> Tree<V> {
    let mut children = Vec::new();
    for c in &m.ch { children.push(mk_n(&c.1)); }
    Tree { value: V::from(m.v), children }
}
pub fn mk_b<V: From<u32>>(m: &M) -> BinaryTree<V> {
    let mut t = BinaryTree { value: V::from(m.v), left: None, right: None };
    for (s, c) in &m.ch { let b = Some(Box::new(mk_b(c))); if *s == 0 { t.left = b; } else { t.right = b; } }
    t
}
pub fn mks_n<V: From<u32>>(f: &[M]) -> Vec<Tree<V>> { let mut o = Vec::new(); for m in f { o.push(mk_n(m)); } o }
pub fn mks_b<V: From<u32>>(f: &[M]) -> Vec<BinaryTree<V>> { let mut o = Vec::new(); for m in f { o.push(mk_b(m)); } o }

pub trait Val { fn val(&self) -> u32; }
impl Val for u32 { fn val(&self) -> u32 { *self } }
impl<T: Val> Val for &T { fn val(&self) -> u32 { (**self).val() } }
impl<T: Val> Val for &mut T { fn val(&self) -> u32 { (**self).val() } }
impl<T: Val> Val for Box<T> { fn val(&self) -> u32 { (**self).val() } }

/// Token encoding of real trees (mirrors `M::enc_n` / `M::enc_b`).
pub trait Enc { fn enc(&self, o: &mut Vec<u64>); }
impl<V: Val> Enc for Tree<V> {
    fn enc(&self, o: &mut Vec<u64>) {
        o.push(self.value.val() as u64);
        o.push(self.children.len() as u64);
        for c in self.children.iter() { c.enc(o); }
    }
}
impl<V: Val> Enc for BinaryTree<V> {
    fn enc(&self, o: &mut Vec<u64>) {
        o.push(self.value.val() as u64);
        for c in [&self.left, &self.right] { match c { None => o.push(0), Some(c) => { o.push(1); c.enc(o) } } }
    }
}
pub fn enc<T: Enc>(t: &T) -> Vec<u64> { let mut o = Vec::new(); t.enc(&mut o); o }

/// The children collection a context exposes.
pub trait Kids {
    const HAS: bool = true;
    fn toks(&self, o: &mut Vec<u64>);
}
impl Kids for () { const HAS: bool = false; fn toks(&self, _: &mut Vec<u64>) {} }
impl<T: Kids> Kids for &T { const HAS: bool = T::HAS; fn toks(&self, o: &mut Vec<u64>) { (**self).toks(o) } }
impl<T: Kids> Kids for &mut T { const HAS: bool = T::HAS; fn toks(&self, o: &mut Vec<u64>) { (**self).toks(o) } }
fn slice_toks<V: Val>(s: &[Tree<V>], o: &mut Vec<u64>) { o.push(s.len() as u64); for c in s { c.enc(o); } }
impl<V: Val> Kids for Vec<Tree<V>> { fn toks(&self, o: &mut Vec<u64>) { slice_toks(self, o) } }
impl<V: Val> Kids for core::slice::Iter<'_, Tree<V>> { fn toks(&self, o: &mut Vec<u64>) { slice_toks(self.as_slice(), o) } }
impl<V: Val> Kids for core::slice::IterMut<'_, Tree<V>> { fn toks(&self, o: &mut Vec<u64>) { slice_toks(self.as_slice(), o) } }
impl<V: Val> Kids for [Option<BinaryTree<V>>; 2] { fn toks(&self, o: &mut Vec<u64>) { for c in self { match c { None => o.push(0), Some(c) => { o.push(1); c.enc(o) } } } } }
impl<V: Val> Kids for [Option<&BinaryTree<V>>; 2] { fn toks(&self, o: &mut Vec<u64>) { for c in self { match c { None => o.push(0), Some(c) => { o.push(1); c.enc(o) } } } } }
impl<V: Val> Kids for [Option<&mut BinaryTree<V>>; 2] { fn toks(&self, o: &mut Vec<u64>) { for c in self { match c { None => o.push(0), Some(c) => { o.push(1); c.enc(o) } } } } }

// ---- comparisons -------------------------------------------------------------------------
pub fn same(a: &[u64], b: &[u64], line: u32) {
    check(a.len() == b.len(), line);
    for i in 0..a.len() { obs(a[i]); check_eq(a[i], b[i], line); }
}
pub fn same_path(a: &[usize], b: &[usize], line: u32) {
    check(a.len() == b.len(), line);
    for i in 0..a.len() { check_eq(a[i] as u64, b[i] as u64, line); }
}
pub fn same_vals<V: Val>(a: &[V], b: &[u32], line: u32) {
    check(a.len() == b.len(), line);
    for i in 0..a.len() { let v = a[i].val() as u64; obs(v); check_eq(v, b[i] as u64, line); }
}
/// The iterator yields exactly `exp`, in order, and then ends.
pub fn seq<I: Iterator>(it: I, exp: &[Info], line: u32) where I::Item: Val {
    let mut i = 0;
    for x in it {
        check(i < exp.len(), line);
        let v = x.val() as u64;
        obs(v);
        check_eq(v, exp[i].v as u64, line);
        i += 1;
    }
    check(i == exp.len(), line);
}
pub fn same_anc<V: Val>(a: &[V], e: &Info, line: u32) { same_vals(a, &e.anc, line); }
/// The ancestor stream yields exactly the ancestor stacks of `exp`, in order, and then ends.
pub fn anc_seq<S, V: Val>(it: &mut S, exp: &[Info], line: u32) where S: StreamingIterator<Item = [V]> {
    let mut i = 0;
    loop {
        match it.next() {
            None => break,
            Some(a) => { check(i < exp.len(), line); same_anc(a, &exp[i], line); }
        }
        match it.get() { None => check(false, line), Some(a) => { check(a.len() == exp[i].anc.len(), line); check_eq(a[a.len() - 1].val() as u64, exp[i].v as u64, line) } }
        i += 1;
    }
    check(i == exp.len(), line);
    check(it.get().is_none(), line);
}
pub fn anc_seq_mut<S, V: Val>(it: &mut S, exp: &[Info], line: u32) where S: StreamingIteratorMut<Item = [V]> {
    let mut i = 0;
    loop {
        match it.next_mut() {
            None => break,
            Some(a) => { check(i < exp.len(), line); same_anc(a, &exp[i], line); }
        }
        match it.get_mut() { None => check(false, line), Some(a) => { check(a.len() == exp[i].anc.len(), line); let k = a.len() - 1; check_eq(a[k].val() as u64, exp[i].v as u64, line) } }
        i += 1;
    }
    check(i == exp.len(), line);
}
pub fn same_ctx<V: Val, C: Kids>(c: &TreeContext<V, C>, e: &Info, tree_index: bool, line: u32) {
    same_vals(c.ancestors(), &e.anc, line);
    same_path(c.path(), &e.path, line);
    check(c.depth() == e.path.len() - tree_index as usize, line);
    if C::HAS { let mut k = Vec::new(); c.children().toks(&mut k); same(&k, &e.kids, line); }
}
pub fn ctx_seq<S, V: Val, C: Kids>(mut it: S, exp: &[Info], tree_index: bool, line: u32) where S: StreamingIterator<Item = TreeContext<V, C>> {
    let mut i = 0;
    loop {
        match it.next() {
            None => break,
            Some(c) => { check(i < exp.len(), line); same_ctx(c, &exp[i], tree_index, line); }
        }
        match it.get() { None => check(false, line), Some(c) => same_path(c.path(), &exp[i].path, line) }
        i += 1;
    }
    check(i == exp.len(), line);
    check(it.get().is_none(), line);
}
pub fn ctx_seq_mut<S, V: Val, C: Kids>(mut it: S, exp: &[Info], tree_index: bool, line: u32) where S: StreamingIteratorMut<Item = TreeContext<V, C>> {
    let mut i = 0;
    loop {
        match it.next() {
            None => break,
            Some(c) => { check(i < exp.len(), line); same_ctx(c, &exp[i], tree_index, line); }
        }
        match it.get_mut() {
            None => check(false, line),
            Some(c) => {
                same_path(c.path(), &exp[i].path, line);
                let a = c.ancestors_mut();
                check(a.len() == exp[i].anc.len(), line);
                check_eq(a[a.len() - 1].val() as u64, exp[i].v as u64, line);
                if C::HAS { let mut k = Vec::new(); c.children_mut().toks(&mut k); check(k.len() == exp[i].kids.len(), line); }
            }
        }
        i += 1;
    }
    check(i == exp.len(), line);
}
pub fn leaves_of(exp: &[Info], from: usize) -> Vec<Info> {
    let mut o = Vec::new();
    for (i, e) in exp.iter().enumerate() { if i >= from && e.leaf { o.push(e.clone()); } }
    o
}

// ---- pipelines -----------------------------------------------------------------------------
/// Mixes a path into a number; different short paths give different results.
pub fn hash(p: &[usize]) -> u32 { let mut h = 1u32; for s in p { h = h.wrapping_mul(31).wrapping_add(*s as u32).wrapping_add(1); } h }
#[derive(Clone, Copy, PartialEq)]
pub enum Stage { Prune(u32), PrunePath(u32), Depth(usize), Map, MapPath, None }
pub fn pr(v: u32, t: u32) -> bool { v < t }
pub fn prp(p: &[usize], v: u32, t: u32) -> bool { (v ^ hash(p)) < t }
pub fn mp(v: u32) -> u32 { v.wrapping_mul(3).wrapping_add(7) }
pub fn mpp(p: &[usize], v: u32) -> u32 { v.wrapping_mul(5).wrapping_add(hash(p)) }
/// What a stage makes of one tree; `base` = path length of the root (1 inside a collection).
pub fn stage(m: &M, path: &mut Vec<usize>, base: usize, sk: usize, bin: bool, s: Stage) -> Option<M> {
    let mut o = M { v: m.v, ch: Vec::new() };
    match s {
        Stage::Prune(t) => if pr(m.v, t) { return None },
        Stage::PrunePath(t) => if prp(&path[sk..], m.v, t) { return None },
        Stage::Depth(d) => if path.len() - base == d { return Some(o) },
        Stage::Map => o.v = mp(m.v),
        Stage::MapPath => o.v = mpp(&path[sk..], m.v),
        Stage::None => {}
    }
    for (k, c) in &m.ch {
        path.push(*k);
        let r = stage(c, path, base, sk, bin, s);
        path.pop();
        if let Some(r) = r { let k = if bin { *k } else { o.ch.len() }; o.ch.push((k, r)); }
    }
    Some(o)
}
pub fn stage1(m: &Option<M>, bin: bool, s: Stage) -> Option<M> { match m { None => None, Some(m) => stage(m, &mut Vec::new(), 0, 0, bin, s) } }
/// A stage over a collection: (tree index, tree) pairs. `sk` = 1 leaves the tree index out of the
/// paths (after a binary prune removed a whole tree, the index is not specified).
pub fn stage_each(f: &[(usize, M)], sk: usize, bin: bool, s: Stage) -> Vec<(usize, M)> {
    let mut o = Vec::new();
    for (i, m) in f {
        let mut p = Vec::new();
        p.push(*i);
        if let Some(r) = stage(m, &mut p, 1, sk, bin, s) { let k = if bin { *i } else { o.len() }; o.push((k, r)); }
    }
    o
}
impl M {
    pub fn enc(&self, bin: bool) -> Vec<u64> { let mut o = Vec::new(); if bin { self.enc_b(&mut o) } else { self.enc_n(&mut o) } o }
    /// As `enc`, with every node preceded by the hash of its path.
    pub fn enc_path(&self, path: &mut Vec<usize>, bin: bool, o: &mut Vec<u64>) {
        o.push(hash(path) as u64);
        o.push(self.v as u64);
        if bin {
            for s in 0..2 { match self.slot(s) { None => o.push(0), Some(c) => { o.push(1); path.push(s); c.enc_path(path, bin, o); path.pop(); } } }
        } else {
            o.push(self.ch.len() as u64);
            for (s, c) in &self.ch { path.push(*s); c.enc_path(path, bin, o); path.pop(); }
        }
    }
    pub fn encp(&self, first: Option<usize>, bin: bool) -> Vec<u64> {
        let (mut p, mut o) = (Vec::new(), Vec::new());
        if let Some(f) = first { p.push(f); }
        self.enc_path(&mut p, bin, &mut o);
        o
    }
}
pub type Toks = Vec<u64>;
/// Fold closures that rebuild the token encoding.
pub fn fold_n(ch: Vec<Toks>, v: u32) -> Toks { let mut o = Vec::new(); o.push(v as u64); o.push(ch.len() as u64); for c in ch { o.extend(c); } o }
pub fn fold_b(ch: [Option<Toks>; 2], v: u32) -> Toks { let mut o = Vec::new(); o.push(v as u64); for c in ch { match c { None => o.push(0), Some(c) => { o.push(1); o.extend(c); } } } o }
pub fn foldp_n(ch: Vec<Toks>, p: &[usize], v: u32) -> Toks { let mut o = Vec::new(); o.push(hash(p) as u64); o.push(v as u64); o.push(ch.len() as u64); for c in ch { o.extend(c); } o }
pub fn foldp_b(ch: [Option<Toks>; 2], p: &[usize], v: u32) -> Toks { let mut o = Vec::new(); o.push(hash(p) as u64); o.push(v as u64); for c in ch { match c { None => o.push(0), Some(c) => { o.push(1); o.extend(c); } } } o }
pub fn same_opt(got: Option<Toks>, want: Option<Toks>, line: u32) {
    match (got, want) { (None, None) => {} (Some(g), Some(w)) => same(&g, &w, line), _ => check(false, line) }
}
/// Steps a pipeline as an iterator: values, paths and depths of `exp`, in order, then None for good.
/// With `cut` < len, prune_current_subtree() is called on that node and its descendants must not come.
macro_rules! steps { ($name:ident $base:ident) => {
    pub fn $name<V, C, I: $base<V, C>>(mut it: I, exp: &[Info], cut: usize, sk: usize, line: u32) where V: Val {
        let mut i = 0;
        loop {
            let v = match it.next() { None => break, Some(v) => v };
            check(i < exp.len(), line);
            check_eq(v.val() as u64, exp[i].v as u64, line);
            check(it.current_path().len() == exp[i].path.len(), line);
            same_path(&it.current_path()[sk..], &exp[i].path[sk..], line);
            check(it.current_depth() == exp[i].anc.len() - 1, line);
            let d = exp[i].path.len();
            let at = i;
            i += 1;
            if at == cut { it.prune_current_subtree(); while i < exp.len() && exp[i].path.len() > d { i += 1; } }
        }
        check(i == exp.len(), line);
        check(it.next().is_none(), line);
        check(it.next().is_none(), line);
    }
} }
steps!(steps TreeIteratorBase);
steps!(steps_each TreeCollectionIteratorBase);
