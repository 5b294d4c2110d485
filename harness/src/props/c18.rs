//! Mutable traversal: writes land on the yielded node, edits of children are honoured.
use crate::giant::*;
use crate::model::*;
use crate::sym::*;
use alloc::{boxed::Box, vec::Vec};
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

fn put(m: &mut M, path: &[usize], f: &mut dyn FnMut(&mut M)) {
    if path.is_empty() { f(m); return; }
    for c in m.ch.iter_mut() { if c.0 == path[0] { put(&mut c.1, &path[1..], f); return; } }
    chk!(false);
}
fn w(v: u32, i: usize) -> u32 { v.wrapping_mul(9).wrapping_add(i as u32) }
macro_rules! writes { ($name:ident $shape:ident $mk:ident $bin:literal; $($ord:ident $m:ident),*) => {
    /// Writing through every yielded reference changes exactly that node.
    pub fn $name() {
        let m = $shape();
        $( {
            let all = order(&m, $bin, Ord::$ord, None);
            let mut want = m.clone();
            for (i, e) in all.iter().enumerate() { put(&mut want, &e.path, &mut |n| n.v = w(e.v, i)); }
            let want = want.enc($bin);
            let mut t = $mk::<u32>(&m);
            let mut i = 0;
            for v in t.$m() { *v = w(*v, i); i += 1; }
            same(&enc(&t), &want, line!());
            // the same through ancestor stacks and contexts
            let mut t = $mk::<u32>(&m);
            let mut i = 0;
            { let mut it = t.$m().attach_ancestors(); while let Some(a) = it.next_mut() { let k = a.len() - 1; *a[k] = w(*a[k], i); i += 1; } }
            same(&enc(&t), &want, line!());
            let mut t = $mk::<u32>(&m);
            let mut i = 0;
            { let mut it = t.$m().attach_context(); while let Some(c) = it.next_mut() { let a = c.ancestors_mut(); let k = a.len() - 1; *a[k] = w(*a[k], i); i += 1; } }
            same(&enc(&t), &want, line!());
            // leaves only
            let mut want = m.clone();
            for (i, e) in all.iter().filter(|e| e.leaf).enumerate() { put(&mut want, &e.path, &mut |n| n.v = w(e.v, i)); }
            let mut t = $mk::<u32>(&m);
            let mut i = 0;
            for v in t.$m().leaves() { *v = w(*v, i); i += 1; }
            same(&enc(&t), &want.enc($bin), line!());
            // writing to every ancestor on each step reaches the ancestors themselves
            let mut t = $mk::<u32>(&m);
            let k = at(all.len());
            let mut want = m.clone();
            for d in 0..all[k].anc.len() { put(&mut want, &all[k].path[..d], &mut |n| n.v = w(n.v, d)); }
            { let mut it = t.$m().attach_ancestors(); for _ in 0..=k { it.advance(); } let a = it.get_mut().unwrap(); for d in 0..a.len() { *a[d] = w(*a[d], d); } }
            same(&enc(&t), &want.enc($bin), line!());
        } )*
        cover(1);
    }
} }
writes!(c18_wbfs_n any18_n mk_n false; Bfs bfs_iter_mut);
writes!(c18_wpre_n any18_n mk_n false; Pre dfs_preorder_iter_mut);
writes!(c18_wpost_n any18_n mk_n false; Post dfs_postorder_iter_mut);
writes!(c18_wbfs_b any18_b mk_b true; Bfs bfs_iter_mut);
writes!(c18_wpre_b any18_b mk_b true; Pre dfs_preorder_iter_mut);
writes!(c18_win_b any18_b mk_b true; In dfs_inorder_iter_mut);
writes!(c18_wpost_b any18_b mk_b true; Post dfs_postorder_iter_mut);
fn any18_n() -> M { mid_n(param(0)) }
fn any18_b() -> M { mid_b(param(0)) }

/// Editing a node's `Vec` of children while it is the current node.
macro_rules! edit_n { ($name:ident $ord:ident $o:ident $m:ident) => {
    pub fn $name() {
        let m = mid_n(param(1));
        let all = order(&m, false, Ord::$ord, None);
        let k = at(all.len());
        let op = choice(4);
        let x = v32();
        let mut want = m.clone();
        put(&mut want, &all[k].path, &mut |n| match op {
            0 => n.ch.clear(),
            1 => { n.ch.pop(); }
            2 => { let s = n.ch.len(); n.ch.push((s, M { v: x, ch: alloc::vec::Vec::new() })); }
            _ => { if n.ch.len() > 0 { n.ch.remove(0); for (i, c) in n.ch.iter_mut().enumerate() { c.0 = i; } } }
        });
        let exp = order(&want, false, Ord::$ord, None);
        let edit = |c: &mut alloc::vec::Vec<Tree<u32>>| match op {
            0 => c.clear(),
            1 => { c.pop(); }
            2 => c.push(Tree { value: x, children: alloc::vec::Vec::new() }),
            _ => { if c.len() > 0 { c.remove(0); } }
        };
        if all[k].kids.len() > 1 { cover(1 + op as u32); }
        {
            let mut i = 0;
            let mut it = mk_n::<u32>(&m).$o().attach_context();
            while let Some(c) = it.next_mut() {
                if i == k { edit(c.children_mut()); }
                chk!(i < exp.len());
                same_ctx(c, if i < k { &all[i] } else { &exp[i] }, false, line!());
                i += 1;
            }
            chk!(i == exp.len());
        }
        let mut t = mk_n::<u32>(&m);
        {
            let mut i = 0;
            let mut it = t.$m().attach_context();
            while let Some(c) = it.next_mut() {
                if i == k { edit(c.children_mut()); }
                chk!(i < exp.len());
                same_ctx(c, if i < k { &all[i] } else { &exp[i] }, false, line!());
                i += 1;
            }
            chk!(i == exp.len());
        }
        same(&enc(&t), &want.enc(false), line!());
    }
} }
edit_n!(c18_epre_n Pre dfs_preorder dfs_preorder_iter_mut);
edit_n!(c18_ebfs_n Bfs bfs bfs_iter_mut);

/// Post-order: the children of the current node were all visited; edits show in the tree afterwards.
pub fn c18_epost_n() {
    let m = mid_n(param(1));
    let all = order(&m, false, Ord::Post, None);
    let k = at(all.len());
    let op = choice(2);
    let x = v32();
    let mut want = m.clone();
    put(&mut want, &all[k].path, &mut |n| match op { 0 => n.ch.clear(), _ => { let s = n.ch.len(); n.ch.push((s, M { v: x, ch: alloc::vec::Vec::new() })); } });
    let mut t = mk_n::<u32>(&m);
    {
        let mut i = 0;
        let mut it = t.dfs_postorder_iter_mut().attach_context();
        while let Some(c) = it.next_mut() {
            if i == k { match op { 0 => c.children_mut().clear(), _ => c.children_mut().push(Tree { value: x, children: alloc::vec::Vec::new() }) } }
            chk!(i < all.len());
            same_vals(c.ancestors(), &all[i].anc, line!());
            same_path(c.path(), &all[i].path, line!());
            i += 1;
        }
        chk!(i == all.len());
    }
    same(&enc(&t), &want.enc(false), line!());
    cover(1);
}

/// Binary: dropping or replacing one side of the current node.
macro_rules! edit_b { ($name:ident $ord:ident $o:ident $m:ident) => {
    pub fn $name() {
        let m = mid_b(param(1));
        let all = order(&m, true, Ord::$ord, None);
        let (k, side, op) = (at(all.len()), choice(2), choice(2));
        let x = v32();
        let mut want = m.clone();
        put(&mut want, &all[k].path, &mut |n| {
            n.ch.retain(|c| c.0 != side);
            if op == 1 { let at = if side == 0 { 0 } else { n.ch.len() }; n.ch.insert(at, (side, M { v: x, ch: alloc::vec::Vec::new() })); }
        });
        let exp = order(&want, true, Ord::$ord, None);
        cover(1 + op as u32);
        {
            let mut i = 0;
            let mut it = mk_b::<u32>(&m).$o().attach_context();
            while let Some(c) = it.next_mut() {
                if i == k { c.children_mut()[side] = if op == 1 { Some(BinaryTree { value: x, left: None, right: None }) } else { None }; }
                chk!(i < exp.len());
                same_ctx(c, if i < k { &all[i] } else { &exp[i] }, false, line!());
                i += 1;
            }
            chk!(i == exp.len());
        }
        // taking a side out of a borrowed context skips it and leaves the tree alone
        let mut t = mk_b::<u32>(&m);
        let mut extra = Box::new(BinaryTree { value: x, left: None, right: None });
        {
            let mut extra = Some(&mut *extra);
            let mut i = 0;
            let mut it = t.$m().attach_context();
            while let Some(c) = it.next_mut() {
                if i == k { c.children_mut()[side] = if op == 1 { extra.take() } else { None }; }
                chk!(i < exp.len());
                same_ctx(c, if i < k { &all[i] } else { &exp[i] }, false, line!());
                i += 1;
            }
            chk!(i == exp.len());
        }
        same(&enc(&t), &m.enc(true), line!());
    }
} }
edit_b!(c18_epre_b Pre dfs_preorder dfs_preorder_iter_mut);
edit_b!(c18_ebfs_b Bfs bfs bfs_iter_mut);

fn put_each(f: &mut [M], path: &[usize], g: &mut dyn FnMut(&mut M)) { put(&mut f[path[0]], &path[1..], g); }
fn enc_each(f: &[M], bin: bool) -> Vec<u64> { let mut o = Vec::new(); for m in f { o.extend(m.enc(bin)); } o }
fn encs<T: Enc>(f: &[T]) -> Vec<u64> { let mut o = Vec::new(); for t in f { o.extend(enc(t)); } o }
/// Writing through mutable collections: plain, through contexts, to all the ancestors of one node, through pipelines.
macro_rules! each { ($name:ident $pipe:ident $forest:ident $mks:ident $bin:literal; $($ord:ident $m:ident),*) => {
    pub fn $name() {
        let f = $forest(3, param(2));
        let mut k = 0;
        for m in &f { k += m.size(); }
        if k > 0 { k = at(k); }
        $( {
            let all = order_each(&f, $bin, Ord::$ord);
            let mut want = f.clone();
            for (i, e) in all.iter().enumerate() { put_each(&mut want, &e.path, &mut |n| n.v = w(e.v, i)); }
            let want = enc_each(&want, $bin);
            let mut t = $mks::<u32>(&f);
            let mut i = 0;
            for v in (&mut t).$m() { *v = w(*v, i); i += 1; }
            same(&encs(&t), &want, line!());
            let mut t = $mks::<u32>(&f);
            let mut i = 0;
            { let mut it = t.iter_mut().$m().attach_context(); while let Some(c) = it.next_mut() { let a = c.ancestors_mut(); let k = a.len() - 1; *a[k] = w(*a[k], i); i += 1; } }
            same(&encs(&t), &want, line!());
            if all.len() > 0 {
                let mut want = f.clone();
                for d in 0..all[k].anc.len() { put_each(&mut want, &all[k].path[..d + 1], &mut |n| n.v = w(n.v, d)); }
                let mut t = $mks::<u32>(&f);
                { let mut it = (&mut t).$m().attach_context(); for _ in 0..=k { it.advance(); } let a = it.get_mut().unwrap().ancestors_mut(); chk!(a.len() == all[k].anc.len()); for d in 0..a.len() { *a[d] = w(*a[d], d); } }
                same(&encs(&t), &enc_each(&want, $bin), line!());
            }
        } )*
        cover(1);
        if f.len() >= 3 { cover(2); }
    }
    /// A pipeline of mutable references writes to the trees it came from, in preorder.
    pub fn $pipe() {
        let f = $forest(3, param(2));
        let all = order_each(&f, $bin, Ord::Pre);
        let mut want = f.clone();
        for (i, e) in all.iter().enumerate() { put_each(&mut want, &e.path, &mut |n| n.v = w(e.v, i)); }
        let want = enc_each(&want, $bin);
        let mut t = $mks::<u32>(&f);
        let mut i = 0;
        for v in (&mut t).into_pipeline_mut() { *v = w(*v, i); i += 1; }
        same(&encs(&t), &want, line!());
        let mut t = $mks::<u32>(&f);
        let mut i = 0;
        for _ in (&mut t).map_each_mut(|v| { *v = w(*v, i); i += 1; }) {}
        same(&encs(&t), &want, line!());
        if let Some(m) = f.first() {
            let all = order(m, $bin, Ord::Pre, None);
            let mut want = m.clone();
            for (i, e) in all.iter().enumerate() { put(&mut want, &e.path, &mut |n| n.v = w(e.v, i)); }
            let mut t = $mks::<u32>(core::slice::from_ref(m));
            let mut i = 0;
            t[0].map_mut(|v| { *v = w(*v, i); i += 1; });
            same(&enc(&t[0]), &want.enc($bin), line!());
            // pruned nodes are seen by the predicate and written to by nothing else
            let th = v32();
            let mut want = m.clone();
            let mut left = Some(m.clone());
            left = left.and_then(|m| stage(&m, &mut Vec::new(), 0, 0, $bin, Stage::Prune(th)));
            if let Some(l) = &left {
                // the nodes that stay, by their place in the original tree
                fn stay(m: &mut M, th: u32, i: &mut usize) { m.v = w(m.v, *i); *i += 1; for c in m.ch.iter_mut() { if !pr(c.1.v, th) { stay(&mut c.1, th, i); } } }
                let mut i = 0;
                stay(&mut want, th, &mut i);
                chk!(i == l.size());
            }
            let mut t = $mks::<u32>(core::slice::from_ref(m));
            let mut i = 0;
            for v in t[0].into_pipeline_mut().prune(|v| pr(**v, th)) { *v = w(*v, i); i += 1; }
            same(&enc(&t[0]), &want.enc($bin), line!());
        }
        cover(1);
    }
} }
each!(c18_each_n c18_pipe_n mids_n mks_n false; Bfs bfs_each_iter_mut, Pre dfs_preorder_each_iter_mut, Post dfs_postorder_each_iter_mut);
each!(c18_each_b c18_pipe_b mids_b mks_b true; Bfs bfs_each_iter_mut, Pre dfs_preorder_each_iter_mut, In dfs_inorder_each_iter_mut, Post dfs_postorder_each_iter_mut);
/// Writes through every kind of traversal of very wide, deep or large trees.
macro_rules! giant { ($name:ident $pick:ident $mk:ident $same:ident; $($ord:ident $m:ident),*) => {
    pub fn $name() {
        let mut g = G::$pick();
        let mut ords = Vec::new();
        $( ords.push(Ord::$ord); )*
        let (ord, how, plus) = (ords[choice(ords.len())], choice(4), v32());
        if ord == Ord::Bfs && how > 0 { g.shallow(); }
        let mut t = core::mem::ManuallyDrop::new(g.$mk::<u32>());
        $( if ord == Ord::$ord { match how {
            0 => for v in t.$m() { *v = v.wrapping_add(plus); },
            1 => { let mut it = t.$m().attach_ancestors(); while let Some(a) = it.next_mut() { let k = a.len() - 1; *a[k] = a[k].wrapping_add(plus); } }
            2 => { let mut it = t.$m().attach_context(); while let Some(c) = it.next_mut() { let a = c.ancestors_mut(); let k = a.len() - 1; *a[k] = a[k].wrapping_add(plus); } }
            _ => for v in t.$m().leaves() { *v = v.wrapping_add(plus); },
        } } )*
        g.$same(&t, &|j| if how < 3 || g.leaf(j) { g.val(j).wrapping_add(plus) } else { g.val(j) }, line!());
        cover(1);
    }
} }
giant!(c18_giant_n pick_n tree_n same_n; Bfs bfs_iter_mut, Pre dfs_preorder_iter_mut, Post dfs_postorder_iter_mut);
giant!(c18_giant_b pick_b tree_b same_b; Bfs bfs_iter_mut, Pre dfs_preorder_iter_mut, In dfs_inorder_iter_mut, Post dfs_postorder_iter_mut);
entries!(c18_giant_n, c18_giant_b, c18_wbfs_n, c18_wpre_n, c18_wpost_n, c18_wbfs_b, c18_wpre_b, c18_win_b, c18_wpost_b, c18_epre_n, c18_ebfs_n, c18_epost_n, c18_epre_b, c18_ebfs_b, c18_each_n, c18_pipe_n, c18_each_b, c18_pipe_b);
