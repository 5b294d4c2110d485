//! Every way of taking items sees what repeated next() sees.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use alloc::vec::Vec;
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

/// An item as tokens.
trait Item { fn item(&self) -> Toks; }
impl Item for u32 { fn item(&self) -> Toks { alloc::vec![*self as u64] } }
impl Item for &u32 { fn item(&self) -> Toks { alloc::vec![**self as u64] } }
impl Item for &mut u32 { fn item(&self) -> Toks { alloc::vec![**self as u64] } }
impl Item for Toks { fn item(&self) -> Toks { self.clone() } }
impl<V: Val> Item for Tree<V> { fn item(&self) -> Toks { enc(self) } }
impl<V: Val> Item for BinaryTree<V> { fn item(&self) -> Toks { enc(self) } }
impl<V: Val> Item for [V] { fn item(&self) -> Toks { let mut o = Vec::new(); for v in self { o.push(v.val() as u64); } o } }
impl<V: Val, C: Kids> Item for TreeContext<V, C> {
    fn item(&self) -> Toks {
        let mut o = Vec::new();
        for v in self.ancestors() { o.push(v.val() as u64); }
        for p in self.path() { o.push(*p as u64); }
        if C::HAS { self.children().toks(&mut o); }
        o
    }
}
fn one(e: &[Info]) -> Vec<Toks> { let mut o = Vec::new(); for i in e { o.push(alloc::vec![i.v as u64]); } o }
fn anc(e: &[Info]) -> Vec<Toks> { let mut o = Vec::new(); for i in e { let mut t = Vec::new(); for v in &i.anc { t.push(*v as u64); } o.push(t); } o }
fn ctx(e: &[Info], kids: bool) -> Vec<Toks> {
    let mut o = anc(e);
    for (t, i) in o.iter_mut().zip(e) { for p in &i.path { t.push(*p as u64); } if kids { t.extend(i.kids.iter().copied()); } }
    o
}
fn is(t: Toks, e: &[Toks], i: usize, line: u32) { if i >= e.len() { check(false, line); return; } same(&t, &e[i], line) }
fn hint(h: (usize, Option<usize>), left: usize, line: u32) {
    check(h.0 <= left, line);
    if let Some(u) = h.1 { check(left <= u, line); }
}
/// The rest by next(), then the end, for good.
fn rest<I: Iterator>(it: &mut I, e: &[Toks], mut i: usize, line: u32) where I::Item: Item {
    loop {
        hint(it.size_hint(), e.len() - i.min(e.len()), line);
        match it.next() { None => break, Some(x) => is(x.item(), e, i, line) }
        i += 1;
    }
    check(i >= e.len(), line);
    for _ in 0..2 { check(it.next().is_none(), line); hint(it.size_hint(), 0, line); }
}
/// How many items are taken by next() first.
fn taken(n: usize) -> usize { if n > 20 { [0, n / 3][choice(2)] } else { choice(n.min(param(2)) + 1) } }
/// `k` items by next(), then the others in another way.
fn ways<I: Iterator>(mut it: I, e: &[Toks], line: u32) where I::Item: Item {
    let n = e.len();
    let k = taken(n);
    for i in 0..k {
        hint(it.size_hint(), n - i, line);
        match it.next() { None => check(false, line), Some(x) => is(x.item(), e, i, line) }
    }
    let way = choice(13);
    let jump = |max: usize| if n > 20 { [1, n / 2 - k, n - k][choice(if max == 2 { 3 } else { 2 })] } else { choice((n - k).min(param(2)) + max) };
    match way {
        0 => { let j = jump(2); match it.nth(j) { None => check(k + j >= n, line), Some(x) => is(x.item(), e, k + j, line) } rest(&mut it, e, k + j + 1, line) }
        1 => check(it.count() == n - k, line),
        2 => match it.last() { None => check(n == k, line), Some(x) => { check(n > k, line); is(x.item(), e, n - 1, line) } },
        3 => { let i = it.fold(k, |i, x| { is(x.item(), e, i, line); i + 1 }); check(i == n, line) }
        4 => { let mut i = k; it.for_each(|x| { is(x.item(), e, i, line); i += 1; }); check(i == n, line) }
        5 => { let v: Vec<I::Item> = it.collect(); check(v.len() == n - k, line); for (i, x) in v.iter().enumerate() { is(x.item(), e, k + i, line); } }
        6 => { let j = jump(1); let mut v = Vec::new(); v.extend(it.by_ref().take(j)); check(v.len() == j, line); for (i, x) in v.iter().enumerate() { is(x.item(), e, k + i, line); } rest(&mut it, e, k + j, line) }
        7 => { let j = jump(2); rest(&mut it.skip(j), e, k + j, line) }
        8 => { let j = 1 + choice(3); let mut i = k; for x in it.step_by(j) { is(x.item(), e, i, line); i += j; } check(i >= n, line) }
        9 => rest(&mut it, e, k, line),
        10 => { let j = jump(1); let mut i = k; let r = it.try_for_each(|x| { is(x.item(), e, i, line); i += 1; if i > k + j { Err(()) } else { Ok(()) } }); check(r.is_ok() == (k + j >= n), line); rest(&mut it, e, i, line) }
        11 => { let j = jump(1); let mut i = k; let r = it.find(|x| { is(x.item(), e, i, line); i += 1; i > k + j }); match r { None => check(k + j >= n, line), Some(x) => is(x.item(), e, k + j, line) } rest(&mut it, e, i, line) }
        _ => { let mut it = it.peekable(); let mut i = k; while let Some(x) = it.peek() { is(x.item(), e, i, line); match it.next() { None => check(false, line), Some(x) => is(x.item(), e, i, line) } i += 1; } check(i == n, line) }
    }
}
fn srest<S: StreamingIterator>(it: &mut S, e: &[Toks], mut i: usize, line: u32) where S::Item: Item {
    loop {
        hint(it.size_hint(), e.len() - i.min(e.len()), line);
        match it.next() { None => break, Some(x) => is(x.item(), e, i, line) }
        check(!it.is_done(), line);
        i += 1;
    }
    check(i >= e.len() && it.is_done() && it.get().is_none(), line);
}
/// The same for streams. An owned or mutable stream shows the same item through get, get_mut, next and next_mut.
fn sways<S: StreamingIterator>(mut it: S, e: &[Toks], line: u32) where S::Item: Item {
    let n = e.len();
    let k = taken(n);
    for i in 0..k {
        hint(it.size_hint(), n - i, line);
        it.advance();
        for _ in 0..2 { match it.get() { None => check(false, line), Some(x) => is(x.item(), e, i, line) } }
    }
    let way = choice(9);
    let jump = |max: usize| if n > 20 { [1, n / 2 - k, n - k][choice(if max == 2 { 3 } else { 2 })] } else { choice((n - k).min(param(2)) + max) };
    match way {
        0 => { let j = jump(2); let mut ok = false; match it.nth(j) { None => check(k + j >= n, line), Some(x) => { ok = true; is(x.item(), e, k + j, line) } } if ok { srest(&mut it, e, k + j + 1, line) } }
        1 => check(it.count() == n - k, line),
        2 => { let i = it.fold(k, |i, x| { is(x.item(), e, i, line); i + 1 }); check(i == n, line) }
        3 => { let mut i = k; it.for_each(|x| { is(x.item(), e, i, line); i += 1; }); check(i == n, line) }
        4 => srest(&mut it, e, k, line),
        5 => { let j = jump(1); let mut i = k; let r = it.all(|x| { is(x.item(), e, i, line); i += 1; i <= k + j }); check(r == (k + j >= n), line); if !r { srest(&mut it, e, i, line) } }
        6 => { let j = jump(1); let mut i = k; let mut ok = false; match it.find(|x| { is(x.item(), e, i, line); i += 1; i > k + j }) { None => check(k + j >= n, line), Some(x) => { ok = true; is(x.item(), e, k + j, line) } } if ok { srest(&mut it, e, i, line) } }
        7 => { let j = jump(1); let mut i = k; let mut t = it.take(j); while let Some(x) = t.next() { is(x.item(), e, i, line); i += 1; } check(i == k + j, line) }
        _ => { let mut i = k; let mut m = it.map(|x| x.item()); while let Some(x) = m.next() { same(x, &e[i], line); i += 1; } check(i == n, line) }
    }
}
fn sways_mut<S: StreamingIteratorMut>(mut it: S, e: &[Toks], line: u32) where S::Item: Item {
    let n = e.len();
    let k = taken(n);
    for i in 0..k {
        match it.next_mut() { None => check(false, line), Some(x) => is(x.item(), e, i, line) }
        match it.get_mut() { None => check(false, line), Some(x) => is(x.item(), e, i, line) }
        match it.get() { None => check(false, line), Some(x) => is(x.item(), e, i, line) }
    }
    match choice(4) {
        0 => { let i = it.fold_mut(k, |i, x| { is(x.item(), e, i, line); i + 1 }); check(i == n, line) }
        1 => { let mut i = k; it.for_each_mut(|x| { is(x.item(), e, i, line); i += 1; }); check(i == n, line) }
        2 => { let mut i = k; while let Some(x) = it.next_mut() { is(x.item(), e, i, line); i += 1; } check(i == n && it.get_mut().is_none() && it.is_done(), line) }
        _ => check(it.count() == n - k, line),
    }
}

macro_rules! plain { ($name:ident $sname:ident $mname:ident $each:ident $seach:ident $gen:ident $mk:ident $forest:ident $mks:ident $bin:literal $n:literal; $($w:literal $ord:ident $o:ident $r:ident $m:ident $co:ident $cr:ident $cm:ident $ownkids:literal $kids:literal),*) => {
    pub fn $name() {
        let m = $gen(param(0));
        let o = choice($n);
        $( if o == $w {
            let e = order(&m, $bin, Ord::$ord, None);
            let (all, lv) = (one(&e), one(&leaves_of(&e, 0)));
            let mut t = $mk::<u32>(&m);
            match choice(6) {
                0 => ways(t.$r(), &all, line!()), 1 => ways(t.$m(), &all, line!()), 2 => ways(t.$o(), &all, line!()),
                3 => ways(t.$r().leaves(), &lv, line!()), 4 => ways(t.$m().leaves(), &lv, line!()), _ => ways(t.$o().leaves(), &lv, line!()),
            }
            cover(1);
        } )*
    }
    pub fn $sname() {
        let m = $gen(param(1));
        let o = choice($n);
        $( if o == $w {
            let e = order(&m, $bin, Ord::$ord, None);
            let mut t = $mk::<u32>(&m);
            match choice(9) {
                0 => sways(t.$r().attach_ancestors(), &anc(&e), line!()), 1 => sways(t.$m().attach_ancestors(), &anc(&e), line!()), 2 => sways(t.$o().attach_ancestors(), &anc(&e), line!()),
                3 => sways(t.$r().attach_context(), &ctx(&e, $kids), line!()), 4 => sways(t.$m().attach_context(), &ctx(&e, $kids), line!()), 5 => sways(t.$o().attach_context(), &ctx(&e, $ownkids), line!()),
                6 => sways(t.$r().attach_ancestors().leaves(), &anc(&leaves_of(&e, 0)), line!()), 7 => sways(t.$m().attach_ancestors().leaves(), &anc(&leaves_of(&e, 0)), line!()), _ => sways(t.$o().attach_ancestors().leaves(), &anc(&leaves_of(&e, 0)), line!()),
            }
            cover(1);
        } )*
    }
    pub fn $mname() {
        let m = $gen(param(1));
        let o = choice($n);
        $( if o == $w {
            let e = order(&m, $bin, Ord::$ord, None);
            let mut t = $mk::<u32>(&m);
            match choice(6) {
                0 => sways_mut(t.$m().attach_ancestors(), &anc(&e), line!()), 1 => sways_mut(t.$o().attach_ancestors(), &anc(&e), line!()),
                2 => sways_mut(t.$m().attach_context(), &ctx(&e, $kids), line!()), 3 => sways_mut(t.$o().attach_context(), &ctx(&e, $ownkids), line!()),
                4 => sways_mut(t.$m().attach_ancestors().leaves(), &anc(&leaves_of(&e, 0)), line!()), _ => sways_mut(t.$o().attach_ancestors().leaves(), &anc(&leaves_of(&e, 0)), line!()),
            }
            cover(1);
        } )*
    }
    pub fn $each() {
        let f = $forest(3, param(3));
        let o = choice($n);
        $( if o == $w {
            let e = one(&order_each(&f, $bin, Ord::$ord));
            let mut t = $mks::<u32>(&f);
            match choice(3) { 0 => ways((&t).$cr(), &e, line!()), 1 => ways((&mut t).$cm(), &e, line!()), _ => ways(t.$co(), &e, line!()) }
            cover(1);
        } )*
    }
    pub fn $seach() {
        let f = $forest(3, param(3));
        let o = choice($n);
        $( if o == $w {
            let e = order_each(&f, $bin, Ord::$ord);
            let mut t = $mks::<u32>(&f);
            match choice(5) {
                0 => sways((&t).$cr().attach_context(), &ctx(&e, $kids), line!()), 1 => sways((&mut t).$cm().attach_context(), &ctx(&e, $kids), line!()), 2 => sways(t.$co().attach_context(), &ctx(&e, $ownkids), line!()),
                3 => sways_mut((&mut t).$cm().attach_context(), &ctx(&e, $kids), line!()), _ => sways_mut(t.$co().attach_context(), &ctx(&e, $ownkids), line!()),
            }
            cover(1);
        } )*
    }
} }
plain!(c26_n c26_s_n c26_m_n c26_each_n c26_seach_n mid_n mk_n mids_n mks_n false 3; 0 Bfs bfs bfs_iter bfs_iter_mut bfs_each bfs_each_iter bfs_each_iter_mut true true, 1 Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut true true, 2 Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut false true);
plain!(c26_b c26_s_b c26_m_b c26_each_b c26_seach_b mid_b mk_b mids_b mks_b true 4; 0 Bfs bfs bfs_iter bfs_iter_mut bfs_each bfs_each_iter bfs_each_iter_mut true true, 1 Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut dfs_preorder_each dfs_preorder_each_iter dfs_preorder_each_iter_mut true true, 2 Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut dfs_postorder_each dfs_postorder_each_iter dfs_postorder_each_iter_mut false true, 3 In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut dfs_inorder_each dfs_inorder_each_iter dfs_inorder_each_iter_mut false true);

fn any_stage() -> Stage {
    match choice(6) { 0 => Stage::None, 1 => Stage::Prune(v32()), 2 => Stage::PrunePath(v32()), 3 => Stage::Depth(choice(3)), 4 => Stage::Map, _ => Stage::MapPath }
}
macro_rules! then { ($it:expr, $s:expr, $map:ident, $e:expr) => { match $s {
    Stage::Prune(t) => ways($it.prune(move |v| pr(v.val(), t)), $e, line!()),
    Stage::PrunePath(t) => ways($it.prune_path(move |p, v| prp(p, v.val(), t)), $e, line!()),
    Stage::Depth(d) => ways($it.prune_depth(d), $e, line!()),
    Stage::Map => ways($it.$map(|v| mp(v.val())), $e, line!()),
    Stage::MapPath => ways($it.map_path(|p, v| mpp(p, v.val())), $e, line!()),
    Stage::None => ways($it, $e, line!()),
} } }
/// Prune everything below a symbolic threshold, then the stage: the first is what the second one steps through.
macro_rules! pipe { ($name:ident $cname:ident $tname:ident $gen:ident $mk:ident $forest:ident $mks:ident $bin:literal $f:ident $fp:ident) => {
    pub fn $name() {
        let m = $gen(param(4));
        let s = any_stage();
        let src = choice(4);
        let mut t = $mk::<u32>(&m);
        let mut r = Some(m);
        let c = v32();
        if src == 3 { r = stage1(&r, $bin, Stage::Prune(c)); }
        let e = match stage1(&r, $bin, s) { None => Vec::new(), Some(r) => one(&order(&r, $bin, Ord::Pre, None)) };
        match src {
            0 => then!(t.into_pipeline_ref(), s, map_tree, &e), 1 => then!(t.into_pipeline_mut(), s, map_tree, &e), 2 => then!(t.into_pipeline(), s, map_tree, &e),
            _ => then!(t.into_pipeline().prune(|v| pr(v.val(), c)), s, map_tree, &e),
        }
        cover(1);
    }
    pub fn $cname() {
        let f = $forest(3, param(5));
        let s = any_stage();
        let mut t = $mks::<u32>(&f);
        let mut g = Vec::new();
        for m in f { g.push((g.len(), m)); }
        // which index a pruned binary tree leaves to its successors is not specified
        // (the values do not depend on it: the stages hash paths before any pruning)
        let mut e = Vec::new();
        for (i, m) in stage_each(&g, 0, $bin, s) { e.extend(one(&order(&m, $bin, Ord::Pre, Some(i)))); }
        match choice(3) { 0 => then!((&t).into_pipeline_ref(), s, map_trees, &e), 1 => then!((&mut t).into_pipeline_mut(), s, map_trees, &e), _ => then!(t.into_pipeline(), s, map_trees, &e) }
        cover(1);
    }
    pub fn $tname() {
        let f = $forest(3, param(5));
        let mut t = $mks::<u32>(&f);
        let c = v32();
        let mut g = Vec::new();
        for m in f { g.push((g.len(), m)); }
        let way = choice(5);
        let (mut e, mut ep) = (Vec::new(), Vec::new());
        if way == 4 { for (i, m) in g { ep.push(m.encp(Some(i), $bin)); } } else { for (_, m) in stage_each(&g, 0, $bin, Stage::Prune(c)) { e.push(m.enc($bin)); } }
        match way {
            0 => ways((&t).into_pipeline_ref().prune(|v| pr(v.val(), c)).trees(), &e, line!()),
            1 => ways((&mut t).into_pipeline_mut().prune(|v| pr(v.val(), c)).trees(), &e, line!()),
            2 => ways(t.into_pipeline().prune(|v| pr(v.val(), c)).trees(), &e, line!()),
            3 => ways(t.into_pipeline().prune(|v| pr(v.val(), c)).fold_trees(|c, v| $f(c, v)), &e, line!()),
            _ => ways(t.into_pipeline().fold_path(|c, p, v| $fp(c, p, v)), &ep, line!()),
        }
        cover(1);
    }
} }
pipe!(c26_pipe_n c26_cpipe_n c26_trees_n any_n mk_n forest_n mks_n false fold_n foldp_n);
pipe!(c26_pipe_b c26_cpipe_b c26_trees_b any_b mk_b forest_b mks_b true fold_b foldp_b);
/// Skips and counts in very wide, deep or large trees.
macro_rules! giant { ($name:ident $pick:ident $mk:ident; $($orders:tt)*) => {
    giants!($name $pick $mk; $($orders)*; g ord it => {
        let n = g.total();
        let mut at = 0;
        let mut end = 0;
        let mut i = 0;
        g.walk(ord, &mut |j| { if i == n / 2 { at = j; } end = j; i += 1; });
        chk!(it.size_hint().0 <= n);
        match choice(3) {
            0 => { chk!(it.nth(n / 2).map(|v| v.val()) == Some(g.val(at))); chk!(it.size_hint().0 <= n - n / 2 - 1); chk!(it.count() == n - n / 2 - 1); }
            1 => { it.next(); chk!(it.nth(n - 2).map(|v| v.val()) == Some(g.val(end))); chk!(it.nth(0).is_none()); }
            _ => chk!(it.last().map(|v| v.val()) == Some(g.val(end))),
        }
    });
} }
giant!(c26_giant_n pick_n tree_n; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
giant!(c26_giant_b pick_b tree_b; Bfs bfs bfs_iter bfs_iter_mut, Pre dfs_preorder dfs_preorder_iter dfs_preorder_iter_mut, In dfs_inorder dfs_inorder_iter dfs_inorder_iter_mut, Post dfs_postorder dfs_postorder_iter dfs_postorder_iter_mut);
entries!(c26_giant_n, c26_giant_b, c26_n, c26_s_n, c26_m_n, c26_each_n, c26_seach_n, c26_b, c26_s_b, c26_m_b, c26_each_b, c26_seach_b, c26_pipe_n, c26_cpipe_n, c26_trees_n, c26_pipe_b, c26_cpipe_b, c26_trees_b);
