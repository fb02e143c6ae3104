//! Every way of driving an iterator tells the same story as calling next() again and again.
use mc::tree_iterators_rs::prelude::*;
use mc::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    Next,
    Count,
    Last,
    Nth(usize),
    Fold,
    StepBy(usize),
    Any(usize),
    Partition,
}
/// after how many elements: all for small trees
fn points(n: usize) -> Vec<usize> {
    if n <= 12 {
        (0..=n).collect()
    } else {
        vec![0, 1, n / 3, n / 2, n - 1, n]
    }
}
fn some(n: usize) -> Vec<usize> {
    if n <= 12 {
        (0..n).collect()
    } else {
        let mut v = vec![0, 1, 7, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, n / 2, n - 2, n - 1];
        v.retain(|i| *i < n);
        v
    }
}
fn ops(rem: usize) -> Vec<Op> {
    let mut v = vec![Op::Next, Op::Count, Op::Last, Op::Fold, Op::Partition];
    v.extend(some(rem).into_iter().chain([rem]).map(Op::Nth));
    v.extend((1..=rem.min(3)).map(Op::StepBy));
    v.extend(some(rem).into_iter().map(Op::Any));
    v
}
/// `want`: everything next() yields. Consume `k` elements, then apply `op`, then drain.
fn drive<I: Iterator>(it: I, want: &[u32], k: usize, op: Op, st: &mut Stats) -> Result<(), String>
where
    I::Item: Obs,
{
    drive_by(it, want, k, op, st, &|v| v.id(), &|_, _| Ok(()))
}
/// The same for any elements: `key` tells them apart, `after` checks an iterator after so many calls.
fn drive_by<I: Iterator>(mut it: I, want: &[u32], k: usize, op: Op, st: &mut Stats, key: &dyn Fn(&I::Item) -> u32, after: &dyn Fn(&I, usize) -> Result<(), String>) -> Result<(), String> {
    let n = want.len();
    let mut pos = 0;
    let hint = |it: &I, pos: usize| {
        let (lo, hi) = it.size_hint();
        if lo > n - pos || hi.is_some_and(|h| h < n - pos) {
            return Err(format!("size_hint() is ({lo}, {hi:?}) with {} elements to come", n - pos));
        }
        if pos > 0 {
            after(it, pos - 1)?;
        }
        Ok(())
    };
    let at = |got: Option<I::Item>, i: usize, what: &str| {
        let got = got.map(|v| key(&v));
        if got != want.get(i).copied() {
            return Err(format!("{what} yielded {got:?}, expected {:?}", want.get(i)));
        }
        Ok(())
    };
    hint(&it, pos)?;
    while pos < k {
        at(it.next(), pos, "next()")?;
        pos += 1;
        st.step();
        hint(&it, pos)?;
    }
    st.step();
    match op {
        Op::Next => {}
        Op::Count => {
            let c = it.count();
            return if c != n - pos { Err(format!("count() is {c}, expected {}", n - pos)) } else { Ok(()) };
        }
        Op::Last => {
            let l = it.last().map(|v| key(&v));
            let w = if pos < n { want.last().copied() } else { None };
            return if l != w { Err(format!("last() is {l:?}, expected {w:?}")) } else { Ok(()) };
        }
        Op::Fold => {
            let mut got = vec![];
            it.for_each(|v| got.push(key(&v)));
            st.sees(got.iter().copied());
            return if got != want[pos..] { Err(format!("for_each saw {got:?}, expected {:?}", &want[pos..])) } else { Ok(()) };
        }
        Op::StepBy(s) => {
            let got: Vec<u32> = it.step_by(s).map(|v| key(&v)).collect();
            let w: Vec<u32> = want[pos..].iter().copied().step_by(s).collect();
            return if got != w { Err(format!("step_by({s}) yielded {got:?}, expected {w:?}")) } else { Ok(()) };
        }
        Op::Partition => {
            let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.partition(|v| key(v) % 2 == 0);
            let (wa, wb): (Vec<u32>, Vec<u32>) = want[pos..].iter().partition(|i| **i % 2 == 0);
            let (a, b): (Vec<u32>, Vec<u32>) = (a.iter().map(key).collect(), b.iter().map(key).collect());
            return if (&a, &b) != (&wa, &wb) { Err(format!("partition() yielded {a:?} {b:?}")) } else { Ok(()) };
        }
        Op::Nth(i) => {
            at(it.nth(i), pos + i, &format!("nth({i})"))?;
            if pos + i >= n {
                return Ok(());
            }
            pos += i + 1;
            hint(&it, pos)?;
        }
        Op::Any(i) => {
            let target = want[pos + i];
            if !it.any(|v| key(&v) == target) {
                return Err(format!("any() did not find {target}"));
            }
            pos += i + 1;
            hint(&it, pos)?;
        }
    }
    while pos < n {
        at(it.next(), pos, "next()")?;
        pos += 1;
        st.step();
        hint(&it, pos)?;
    }
    at(it.next(), n, "next()")
}
fn leaves_want(m: &M, o: Order, k: usize) -> Vec<u32> {
    let seen: Vec<u32> = m.order(o).into_iter().take(k).collect();
    let leaf = m.leaf_ids();
    let out = if o == Order::Bfs { Order::Bfs } else { Order::Post };
    m.order(out).into_iter().filter(|i| leaf.contains(i) && !seen.contains(i)).collect()
}

macro_rules! cb {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        let want = $m.order($order);
        for k in points(want.len()) {
            for op in ops(want.len() - k) {
                $c.case(&|| format!("{} {op:?} after {k} on {}", $label, $m), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $t = <$N>::build($m);
                    drive($it, &want, k, op, st)
                });
            }
        }
        for j in [0, $m.size() / 2] {
            let want = leaves_want($m, $order, j);
            for k in points(want.len()) {
                for op in ops(want.len() - k) {
                    $c.case(&|| format!("{}, leaves() after {j}, {op:?} after {k} on {}", $label, $m), &mut |st| {
                        #[allow(unused_mut)]
                        let mut $t = <$N>::build($m);
                        #[allow(unused_mut)]
                        let mut it = $it;
                        for _ in 0..j {
                            it.next();
                        }
                        drive(it.leaves(), &want, k, op, st)
                    });
                }
            }
        }
        let want = stacks($m, &want);
        streams!($own, "attach_context", $label, want, ($t = <$N>::build($m)) => $it.attach_context(), $c, $m);
        streams!($own, "attach_ancestors", $label, want, ($t = <$N>::build($m)) => $it.attach_ancestors(), $c, $m);
        for j in [0, $m.size() / 2] {
            let want = stacks($m, &leaves_want($m, $order, j));
            streams!($own, format!("attach_ancestors().advance() x {j}, leaves"), $label, want, ($t = <$N>::build($m)) => {
                let mut it = $it.attach_ancestors();
                for _ in 0..j {
                    it.advance();
                }
                it.leaves()
            }, $c, $m);
        }
    };
}

/// the elements of streaming iterators
trait Stack {
    fn stack(&self) -> Vec<u32>;
}
impl<T: Obs> Stack for [T] {
    fn stack(&self) -> Vec<u32> {
        self.iter().map(|v| v.id()).collect()
    }
}
impl<T: Obs, C> Stack for TreeContext<T, C> {
    fn stack(&self) -> Vec<u32> {
        self.ancestors().stack()
    }
}
fn stacks(m: &M, order: &[u32]) -> Vec<Vec<u32>> {
    let infos = m.infos();
    order.iter().map(|id| infos.iter().find(|x| x.id == *id).unwrap().anc.clone()).collect()
}

#[derive(Clone, Copy, Debug)]
enum SOp {
    Advance,
    Next,
    Nth(usize),
    Find(usize),
    Position(usize),
    All(usize),
    Count,
    ForEach,
    Fold,
    Skip(usize),
    Take(usize),
    Map,
    GetMut,
    NextMut,
    ForEachMut,
    FoldMut,
}
fn sops(rem: usize, muts: bool) -> Vec<SOp> {
    let mut v = vec![SOp::Advance, SOp::Next, SOp::Count, SOp::ForEach, SOp::Fold, SOp::Map];
    v.extend(some(rem).into_iter().chain([rem]).map(SOp::Nth));
    v.extend(some(rem).into_iter().map(SOp::Find));
    v.extend(some(rem).into_iter().map(SOp::Position));
    v.extend(some(rem).into_iter().map(SOp::All));
    v.extend(some(rem).into_iter().chain([rem]).map(SOp::Skip));
    v.extend(some(rem).into_iter().chain([rem]).map(SOp::Take));
    if muts {
        v.extend([SOp::GetMut, SOp::NextMut, SOp::ForEachMut, SOp::FoldMut]);
    }
    v
}
struct Want<'a>(&'a [Vec<u32>]);
impl Want<'_> {
    fn at(&self, i: usize, got: Option<Vec<u32>>, what: &str) -> Result<(), String> {
        if got.as_ref() != self.0.get(i) {
            return Err(format!("{what} yielded {got:?}, expected {:?}", self.0.get(i)));
        }
        Ok(())
    }
    fn all(&self, from: usize, got: Vec<Vec<u32>>, what: &str) -> Result<(), String> {
        if got != self.0[from..] {
            return Err(format!("{what} saw {got:?}, expected {:?}", &self.0[from..]));
        }
        Ok(())
    }
}
/// advance `k` elements, apply `op`, then go to the end and beyond it
fn drive_stream<S>(mut it: S, want: &[Vec<u32>], k: usize, op: SOp, st: &mut Stats) -> Result<(), String>
where
    S: StreamingIterator,
    S::Item: Stack,
{
    let w = Want(want);
    let n = want.len();
    let see = |x: Option<&S::Item>| x.map(|x| x.stack());
    let hint = |it: &S, pos: usize| {
        let (lo, hi) = it.size_hint();
        if lo > n - pos || hi.is_some_and(|h| h < n - pos) {
            return Err(format!("size_hint() is ({lo}, {hi:?}) with {} elements to come", n - pos));
        }
        Ok(())
    };
    hint(&it, 0)?;
    for j in 0..k {
        st.step();
        it.advance();
        w.at(j, see(it.get()), "get()")?;
        w.at(j, see(it.get()), "get() again")?;
        hint(&it, j + 1)?;
    }
    let mut pos = k;
    let mut seen = vec![];
    st.step();
    // what the stack of the element `i` from here is, for predicates
    let stop = |i: usize| want[k + i].clone();
    match op {
        SOp::Advance => {}
        SOp::Next => {
            while pos < n {
                w.at(pos, see(it.next()), "next()")?;
                pos += 1;
            }
        }
        SOp::Nth(i) => {
            w.at(pos + i, see(it.nth(i)), "nth()")?;
            pos = (pos + i + 1).min(n + 1);
        }
        SOp::Find(i) => {
            let s = stop(i);
            w.at(pos + i, see(it.find(|x| x.stack() == s)), "find()")?;
            pos += i + 1;
        }
        SOp::Position(i) => {
            let s = stop(i);
            let p = it.position(|x| x.stack() == s);
            if p != Some(i) {
                return Err(format!("position() is {p:?}, expected {i}"));
            }
            pos += i + 1;
        }
        SOp::All(i) => {
            let s = stop(i);
            if it.all(|x| x.stack() != s) {
                return Err("all() missed an element".into());
            }
            pos += i + 1;
        }
        SOp::Count => {
            let c = it.count();
            return if c != n - pos { Err(format!("count() is {c}, expected {}", n - pos)) } else { Ok(()) };
        }
        SOp::ForEach => {
            it.for_each(|x| seen.push(x.stack()));
            return w.all(pos, seen, "for_each()");
        }
        SOp::Fold => {
            let seen = it.fold(seen, |mut s, x| {
                s.push(x.stack());
                s
            });
            return w.all(pos, seen, "fold()");
        }
        SOp::Map => {
            let seen = it.map_deref(|x| x.stack()).collect();
            return w.all(pos, seen, "map_deref()");
        }
        SOp::Skip(i) => {
            it.skip(i).for_each(|x| seen.push(x.stack()));
            return w.all(pos + i, seen, "skip()");
        }
        SOp::Take(i) => {
            it.take(i).for_each(|x| seen.push(x.stack()));
            return Want(&want[..pos + i]).all(pos, seen, "take()");
        }
        SOp::GetMut | SOp::NextMut | SOp::ForEachMut | SOp::FoldMut => unreachable!(),
    }
    if pos > 0 && pos <= n {
        w.at(pos - 1, see(it.get()), "get()")?;
        if it.is_done() {
            return Err("is_done() although an element is current".into());
        }
    }
    // to the end, and some more: it stays there
    for j in pos..n + 4 {
        st.step();
        it.advance();
        w.at(j, see(it.get()), "get()")?;
    }
    if !it.is_done() {
        return Err("not is_done() after the end".into());
    }
    hint(&it, n)
}
fn drive_mut<S>(mut it: S, want: &[Vec<u32>], k: usize, op: SOp, st: &mut Stats) -> Result<(), String>
where
    S: StreamingIteratorMut,
    S::Item: Stack,
{
    if !matches!(op, SOp::GetMut | SOp::NextMut | SOp::ForEachMut | SOp::FoldMut) {
        return drive_stream(it, want, k, op, st);
    }
    let w = Want(want);
    let see = |x: Option<&mut S::Item>| x.map(|x| x.stack());
    for j in 0..k {
        st.step();
        w.at(j, see(it.next_mut()), "next_mut()")?;
        w.at(j, see(it.get_mut()), "get_mut()")?;
    }
    let mut seen = vec![];
    match op {
        SOp::GetMut => {
            for j in k..want.len() + 3 {
                it.advance();
                w.at(j, see(it.get_mut()), "get_mut()")?;
                w.at(j, it.get().map(|x| x.stack()), "get()")?;
            }
        }
        SOp::NextMut => {
            for j in k..want.len() + 3 {
                w.at(j, see(it.next_mut()), "next_mut()")?;
            }
        }
        SOp::ForEachMut => {
            it.for_each_mut(|x| seen.push(x.stack()));
            w.all(k, seen, "for_each_mut()")?;
        }
        _ => {
            let seen = it.fold_mut(seen, |mut s, x| {
                s.push(x.stack());
                s
            });
            w.all(k, seen, "fold_mut()")?;
        }
    }
    Ok(())
}
macro_rules! streams {
    (refs, $($x:tt)*) => { streams!(@go drive_stream, false, $($x)*) };
    (owned, $($x:tt)*) => { streams!(@go drive_mut, true, $($x)*) };
    (muts, $($x:tt)*) => { streams!(@go drive_mut, true, $($x)*) };
    (@go $drive:ident, $muts:literal, $meth:expr, $label:expr, $want:ident, ($t:ident = $prep:expr) => $it:expr, $c:ident, $m:expr) => {
        for k in points($want.len()) {
            for op in sops($want.len() - k, $muts) {
                $c.case(&|| format!("{}.{}() {op:?} after {k} on {}", $label, $meth, $m), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $t = $prep;
                    $drive($it, &$want, k, op, st)
                });
            }
        }
    };
}

macro_rules! meth {
    (pipe, $($x:tt)*) => { meth!(@go $($x)*) };
    ($own:ident, $label:expr, $guard:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $order:expr, $m:ident) => {
        meth!(@go $label, $guard, ($v = $prep) => $coll, $c, $f, $order, $m);
        if $guard {
            let want: Vec<Vec<u32>> = $f.iter().flat_map(|t| stacks(t, &t.order($order))).collect();
            streams!($own, concat!(stringify!($m), "().attach_context"), $label, want, ($v = $prep) => $coll.$m().attach_context(), $c, forest_str($f));
        }
    };
    (@go $label:expr, $guard:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $order:expr, $m:ident) => {
        if $guard {
            let want: Vec<u32> = $f.iter().flat_map(|t| t.order($order)).collect();
            for k in points(want.len()) {
                for op in ops(want.len() - k) {
                    $c.case(&|| format!("{}.{}() {op:?} after {k} on {}", $label, stringify!($m), forest_str($f)), &mut |st| {
                        #[allow(unused_mut)]
                        let mut $v = $prep;
                        drive($coll.$m(), &want, k, op, st)
                    });
                }
            }
        }
    };
}
macro_rules! coll {
    (owned, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident) => {
        coll!(@go owned, $k, $label, $g, ($v = $prep) => $coll, $c, $f, bfs_each, dfs_preorder_each, dfs_postorder_each, dfs_inorder_each, into_pipeline);
    };
    (muts, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident) => {
        coll!(@go muts, $k, $label, $g, ($v = $prep) => $coll, $c, $f, bfs_each_iter_mut, dfs_preorder_each_iter_mut, dfs_postorder_each_iter_mut, dfs_inorder_each_iter_mut, into_pipeline_mut);
    };
    (refs, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident) => {
        coll!(@go refs, $k, $label, $g, ($v = $prep) => $coll, $c, $f, bfs_each_iter, dfs_preorder_each_iter, dfs_postorder_each_iter, dfs_inorder_each_iter, into_pipeline_ref);
    };
    (@go $own:ident, $k:ident, $label:expr, $g:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $a:ident, $b:ident, $d:ident, $e:ident, $p:ident) => {
        meth!($own, $label, $g, ($v = $prep) => $coll, $c, $f, Order::Bfs, $a);
        meth!($own, $label, $g, ($v = $prep) => $coll, $c, $f, Order::Pre, $b);
        meth!($own, $label, $g, ($v = $prep) => $coll, $c, $f, Order::Post, $d);
        meth!(pipe, $label, $g, ($v = $prep) => $coll, $c, $f, Order::Pre, $p);
        coll!(@$k $own, $label, $g, ($v = $prep) => $coll, $c, $f, $e);
    };
    (@nary $($x:tt)*) => {};
    (@bin $own:ident, $label:expr, $g:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $e:ident) => {
        meth!($own, $label, $g, ($v = $prep) => $coll, $c, $f, Order::In, $e);
    };
}
fn nary_c(c: &mut Ctx, f: &[M]) {
    nary_colls!(coll, f, (c, f));
}
fn binary_c(c: &mut Ctx, f: &[M]) {
    bin_colls!(coll, f, (c, f));
}
/// A stage, applied to whatever comes before it, as the last of a chain: its own methods are driven.
macro_rules! last {
    ($name:ident, $Trait:ident, $map:ident, $coll:literal) => {
        fn $name<T: Obs, C, I: $Trait<T, C>>(it: I, s: Option<St>, o: &Out, k: usize, op: Op, st: &mut Stats) -> Result<(), String> {
            let want: Vec<u32> = o.rows.iter().map(|r| r.0).collect();
            macro_rules! go {
                ($it:expr) => {
                    drive_by($it, &want, k, op, st, &|v| v.id(), &|it, i| {
                        let (p, d) = (it.current_path(), it.current_depth());
                        let w = &o.rows[i].1;
                        if p != w || d != w.len() - $coll as usize {
                            return Err(format!("current_path() is {p:?} and current_depth() {d} at the element with path {w:?}"));
                        }
                        Ok(())
                    })
                };
            }
            match s {
                None => go!(it),
                Some(St::Map) => go!(it.$map(|v| v)),
                Some(St::MapPath) => go!(it.map_path(|_, v| v)),
                Some(St::Prune(m)) => go!(it.prune(move |v| has(m, v.id()))),
                Some(St::PrunePath(m)) => go!(it.prune_path(move |_, v| has(m, v.id()))),
                Some(St::Depth(d)) => go!(it.prune_depth(d)),
                Some(St::Cut(_)) => unreachable!(),
            }
        }
    };
}
last!(last_nary, TreeIterator, map_tree, false);
last!(last_bin, BinaryTreeIterator, map_tree, false);
last!(last_nary_coll, TreeCollectionIterator, map_trees, true);
last!(last_bin_coll, BinaryTreeCollectionIterator, map_trees, true);
/// chains of up to two stages: every stage, and every parameter of it
fn some_chains(n: usize, h: usize, len: usize) -> Vec<Vec<St>> {
    let mut out = vec![];
    chains(&stages(n, h), len, &mut |c| out.push(c.to_vec()));
    out
}
macro_rules! driven {
    ($c:ident, $ch:ident, $o:ident, $what:expr, $label:expr, ($t:ident = $prep:expr) => $it:expr, $Box:ident, $last:ident) => {
        for k in 0..=$o.rows.len() {
            for op in ops($o.rows.len() - k) {
                $c.case(&|| format!("{}{} {op:?} after {k} on {}", $label, chain_str(&$ch), $what), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $t = $prep;
                    match $ch.len() {
                        0 => $last($it, None, &$o, k, op, st),
                        1 => $last($it, Some($ch[0]), &$o, k, op, st),
                        n => $last($Box::new($it).chain(&$ch[..n - 1]).0, Some($ch[n - 1]), &$o, k, op, st),
                    }
                });
            }
        }
    };
}
macro_rules! pipe {
    ($c:ident, $m:ident, $len:ident, $N:ty, $nm:literal, $Box:ident, $last:ident) => {
        for ch in some_chains($m.size(), $m.height() + 1, $len) {
            let o = model_chain(std::slice::from_ref($m), &ch, false);
            driven!($c, ch, o, $m, concat!($nm, ".into_pipeline()"), (t = <$N>::build($m)) => t.into_pipeline(), $Box, $last);
            driven!($c, ch, o, $m, concat!($nm, ".into_pipeline_mut()"), (t = <$N>::build($m)) => t.into_pipeline_mut(), $Box, $last);
            driven!($c, ch, o, $m, concat!($nm, ".into_pipeline_ref()"), (t = <$N>::build($m)) => t.into_pipeline_ref(), $Box, $last);
        }
    };
}
/// tells trees apart
fn tree_key(m: &M) -> u32 {
    m.infos().iter().fold(7, |h: u32, i| i.path.iter().fold(h.wrapping_mul(31).wrapping_add(i.id), |h, p| h.wrapping_mul(37).wrapping_add(*p as u32 + 1)))
}
macro_rules! tree_results {
    ($c:ident, $f:ident, $o:ident, $label:expr, ($v:ident = $prep:expr) => $it:expr, $key:expr) => {
        let want: Vec<u32> = $o.forest.iter().map(tree_key).collect();
        for k in points(want.len()) {
            for op in ops(want.len() - k) {
                $c.case(&|| format!("{} {op:?} after {k} on {}", $label, forest_str($f)), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $v = $prep;
                    drive_by($it, &want, k, op, st, &$key, &|_, _| Ok(()))
                });
            }
        }
    };
}
macro_rules! pipe_coll {
    ($c:ident, $f:ident, $n:ident, $len:ident, $N:ty, $nm:literal, $K:ty, $fold:path, $Box:ident, $last:ident, [$($tf:tt)*]) => {
        for ch in some_chains($n, $f.iter().map(|m| m.height() + 1).max().unwrap_or(1), $len) {
            let o = model_chain($f, &ch, true);
            driven!($c, ch, o, forest_str($f), concat!("Vec<", $nm, ">.into_pipeline()"), (t = build_vec::<$N>($f)) => t.into_pipeline(), $Box, $last);
            driven!($c, ch, o, forest_str($f), concat!("IterMut<", $nm, ">.into_pipeline_mut()"), (t = build_vec::<$N>($f)) => t.iter_mut().into_pipeline_mut(), $Box, $last);
            driven!($c, ch, o, forest_str($f), concat!("&Vec<", $nm, ">.into_pipeline_ref()"), (t = build_vec::<$N>($f)) => (&t).into_pipeline_ref(), $Box, $last);
            tree_results!($c, $f, o, format!("Vec<{}>.into_pipeline(){}.trees()", $nm, chain_str(&ch)), (t = build_vec::<$N>($f)) => $Box::new(t.into_pipeline()).chain(&ch).0.trees(), |t| tree_key(&t.model()));
            if ch.len() == 1 {
                pipe_coll!(@ $c, $f, o, ch, $N, $nm, $K, $fold, (t = build_vec::<$N>($f)) => t, map_each, map_path_each, prune_each, prune_path_each, fold_each, fold_path_each, prune_depth_each $($tf)*);
                pipe_coll!(@ $c, $f, o, ch, $N, $nm, $K, $fold, (t = build_vec::<$N>($f)) => t.iter_mut(), map_each_mut, map_path_each_mut, prune_each_mut, prune_path_each_mut, fold_each_mut, fold_path_each_mut, prune_depth_each_mut);
                pipe_coll!(@ $c, $f, o, ch, $N, $nm, $K, $fold, (t = build_vec::<$N>($f)) => t.iter(), map_each_ref, map_path_each_ref, prune_each_ref, prune_path_each_ref, fold_each_ref, fold_path_each_ref, prune_depth_each_ref);
            }
        }
    };
    (@ $c:ident, $f:ident, $o:ident, $ch:ident, $N:ty, $nm:literal, $K:ty, $fold:path, ($t:ident = $prep:expr) => $e:expr, $map:ident, $map_path:ident, $prune:ident, $prune_path:ident, $fld:ident, $fold_path:ident, $depth:ident $($tf:tt)*) => {
        match $ch[0] {
            St::Map => {
                tree_results!($c, $f, $o, concat!("<", $nm, "> ", stringify!($map)), ($t = $prep) => $e.$map(|v| v), |t| tree_key(&t.model()));
                tree_results!($c, $f, $o, concat!("<", $nm, "> ", stringify!($fld)), ($t = $prep) => $e.$fld(|k: $K, v| $fold(k, Obs::id(&v), 0)), tree_key);
            }
            St::MapPath => {
                tree_results!($c, $f, $o, concat!("<", $nm, "> ", stringify!($map_path)), ($t = $prep) => $e.$map_path(|_: &[usize], v| v), |t| tree_key(&t.model()));
                tree_results!($c, $f, $o, concat!("<", $nm, "> ", stringify!($fold_path)), ($t = $prep) => $e.$fold_path(|k: $K, _: &[usize], v| $fold(k, Obs::id(&v), 0)), tree_key);
            }
            St::Prune(m) => {
                tree_results!($c, $f, $o, format!("<{}> {}{}", $nm, stringify!($prune), ids(m)), ($t = $prep) => $e.$prune(|v| has(m, Obs::id(v))), |t| tree_key(&t.model()));
            }
            St::PrunePath(m) => {
                tree_results!($c, $f, $o, format!("<{}> {}{}", $nm, stringify!($prune_path), ids(m)), ($t = $prep) => $e.$prune_path(|_: &[usize], v| has(m, Obs::id(v))), |t| tree_key(&t.model()));
            }
            St::Depth(d) => {
                tree_results!($c, $f, $o, format!("<{}> {}({d})", $nm, stringify!($depth)), ($t = $prep) => $e.$depth $($tf)* (d), |t| tree_key(&t.model()));
            }
            St::Cut(_) => unreachable!(),
        }
    };
}

pub fn run(c: &mut Ctx) {
    let n = c.pick(7, 9, 3);
    c.bound(format!("every n-ary and binary tree shape with <= {n} nodes x every traversal (plain, leaves, context, ancestors) x every number of elements x every consuming method"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                nary_sources!(cb, (c, m));
            }
        }
        for m in &binary_shapes(s) {
            if c.mine() {
                bin_sources!(cb, (c, m));
            }
        }
    }
    let sizes = c.pick(vec![17, 33, 140], vec![12, 16, 17, 24, 32, 33, 65, 66, 130, 131, 258, 300], vec![]);
    c.bound(format!("the same at a few points on 15 families of larger trees of the sizes {sizes:?}"));
    for m in &nary_families_of(&sizes) {
        if c.mine() {
            nary_sources!(cb, (c, m));
        }
    }
    for m in &binary_families_of(&sizes) {
        if c.mine() {
            bin_sources!(cb, (c, m));
        }
    }
    let n = c.pick(6, 7, 2);
    c.bound(format!("every collection with <= {n} nodes in total x every container x every traversal and pipeline x every number of elements x every consuming method"));
    for s in 0..=n {
        for f in &nary_forests(s) {
            if c.mine() {
                nary_c(c, f);
            }
        }
        for f in &binary_forests(s) {
            if c.mine() {
                binary_c(c, f);
            }
        }
    }
    for (n, len) in c.pick([(7, 0), (5, 1), (3, 2)], [(8, 0), (6, 1), (4, 2)], [(2, 0), (2, 1), (1, 2)]) {
        c.bound(format!("pipelines of {len} stages (every prune set, every depth limit) on every n-ary and binary tree with <= {n} nodes x every number of elements x every consuming method, with the path after each"));
        for s in 1..=n {
            for m in &nary_shapes(s) {
                if c.mine() {
                    pipe!(c, m, len, Tree<V>, "Tree", NBox, last_nary);
                    pipe!(c, m, len, INode, "INode", NBox, last_nary);
                }
            }
            for m in &binary_shapes(s) {
                if c.mine() {
                    pipe!(c, m, len, BinaryTree<V>, "BinaryTree", BBox, last_bin);
                    pipe!(c, m, len, CBin, "CBin", BBox, last_bin);
                }
            }
        }
    }
    for (n, len) in c.pick([(6, 0), (4, 1), (2, 2)], [(7, 0), (5, 1), (3, 2)], [(2, 0), (2, 1), (1, 2)]) {
        c.bound(format!("the same for pipelines of {len} stages of collections with <= {n} nodes in total, for the trees they collect and for the results of every *_each transform"));
        for s in 0..=n {
            for f in &nary_forests(s) {
                if c.mine() {
                    pipe_coll!(c, f, s, len, Tree<V>, "Tree", Vec<M>, fold_nary, NCBox, last_nary_coll, [::<()>]);
                }
            }
            for f in &binary_forests(s) {
                if c.mine() {
                    pipe_coll!(c, f, s, len, BinaryTree<V>, "BinaryTree", [Option<M>; 2], fold_bin, BCBox, last_bin_coll, []);
                }
            }
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C20", &[], run);
}
