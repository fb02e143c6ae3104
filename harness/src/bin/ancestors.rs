use mc::tree_iterators_rs::prelude::*;
use mc::*;
use std::collections::{BTreeMap, BTreeSet};

type Want = (Vec<u32>, BTreeMap<u32, Vec<u32>>);
fn want(m: &M, o: Order) -> Want {
    (m.order(o), m.infos().into_iter().map(|i| (i.id, i.anc)).collect())
}

fn check_slice<T: Obs>(s: &[T], want: &Want, i: usize, seen: &BTreeSet<u32>, muts: bool, st: &mut Stats) -> Result<u32, String> {
    let got: Vec<u32> = s.iter().map(|v| v.id()).collect();
    let Some(id) = want.0.get(i) else { return Err(format!("yielded {got:?} after the last node")) };
    st.sees(got.iter().copied());
    st.step();
    if got != want.1[id] {
        return Err(format!("step {i}: ancestors {got:?}, expected {:?}", want.1[id]));
    }
    for v in s {
        let w = (muts && seen.contains(&v.id())) as u32;
        if v.touched() != w {
            return Err(format!("step {i}: value {} shows {} modifications, expected {w}", v.id(), v.touched()));
        }
    }
    Ok(*id)
}

macro_rules! walk {
    (refs, $it:ident, $w:ident, $st:ident, $lim:expr) => {
        walk!(@run $it, $w, $st, $lim, next, false, |_s: &[_]| {})
    };
    (owned, $it:ident, $w:ident, $st:ident, $lim:expr) => { walk!(muts, $it, $w, $st, $lim) };
    (muts, $it:ident, $w:ident, $st:ident, $lim:expr) => {
        walk!(@run $it, $w, $st, $lim, next_mut, true, |s: &mut [_]| { Obs::touch(s.last_mut().unwrap()); })
    };
    (@run $it:ident, $w:ident, $st:ident, $lim:expr, $next:ident, $muts:expr, $touch:expr) => {{
        let mut seen = BTreeSet::new();
        let mut i = 0;
        while i < $lim {
            let Some(s) = $it.$next() else { break };
            // for a long tree only the walks to the end check every step
            let id = if $lim == usize::MAX || $w.0.len() <= 66 {
                check_slice(s, &$w, i, &seen, $muts, $st)?
            } else {
                Obs::id(s.last().unwrap())
            };
            ($touch)(s);
            seen.insert(id);
            i += 1;
        }
        (i, seen)
    }};
}

macro_rules! cb {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        $c.case(&|| format!("{}.attach_ancestors() on {}", $label, $m), &mut |st| {
            let w = want($m, $order);
            #[allow(unused_mut)]
            let mut $t = <$N>::build($m);
            let mut it = $it.attach_ancestors();
            let (i, _) = walk!($own, it, w, st, usize::MAX);
            if i != w.0.len() {
                return Err(format!("ended after {i} of {} nodes", w.0.len()));
            }
            if it.get().is_some() {
                return Err("get() yields an element after the end".into());
            }
            Ok(())
        });
    };
}
macro_rules! leaf_steps {
    (refs, $it:ident, $s:ident, $b:block) => { while let Some($s) = $it.next() $b };
    (owned, $it:ident, $s:ident, $b:block) => { while let Some($s) = $it.next_mut() $b };
    (muts, $it:ident, $s:ident, $b:block) => { while let Some($s) = $it.next_mut() $b };
    (@count refs, $e:expr) => { 0 & $e as u32 };
    (@count $own:ident, $e:expr) => { $e as u32 };
    (@touch refs, $s:ident) => {};
    (@touch $own:ident, $s:ident) => { Obs::touch($s.last_mut().unwrap()) };
}
macro_rules! cbl {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        for k in cuts($m.size()) {
            $c.case(&|| format!("{}.attach_ancestors() then leaves() after {k} on {}", $label, $m), &mut |st| {
                let w = want($m, $order);
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it.attach_ancestors();
                let (_, seen) = walk!($own, it, w, st, k);
                let leaf: BTreeSet<u32> = $m.leaf_ids().into_iter().collect();
                let out = if $order == Order::Bfs { Order::Bfs } else { Order::Post };
                let lw: Want = ($m.order(out).into_iter().filter(|i| leaf.contains(i) && !seen.contains(i)).collect(), w.1);
                let mut it = it.leaves();
                let mut i = 0;
                let mut seen = seen;
                leaf_steps!($own, it, s, {
                    let got: Vec<u32> = s.iter().map(|v| Obs::id(v)).collect();
                    st.sees(got.iter().copied());
                    st.step();
                    let Some(id) = lw.0.get(i) else { return Err(format!("yielded {got:?} after the last remaining leaf")) };
                    if got != lw.1[id] {
                        return Err(format!("leaf {i}: ancestors {got:?}, expected {:?}", lw.1[id]));
                    }
                    // modifications made before and after the switch are all there
                    for v in s.iter() {
                        let w = leaf_steps!(@count $own, seen.contains(&Obs::id(v)));
                        if Obs::touched(v) != w {
                            return Err(format!("leaf {i}: value {} shows {} modifications, expected {w}", Obs::id(v), Obs::touched(v)));
                        }
                    }
                    leaf_steps!(@touch $own, s);
                    seen.insert(*id);
                    i += 1;
                });
                if i != lw.0.len() {
                    return Err(format!("ended after {i} of the {} remaining leaves {:?}", lw.0.len(), lw.0));
                }
                Ok(())
            });
        }
    };
}

pub fn run(c: &mut Ctx) {
    let fam = c.pick(300, 300, 0);
    let n = c.pick(10, 12, 4);
    c.bound(format!("every n-ary tree shape with <= {n} nodes, {}", fam_str(fam)));
    for ref m in nary_all(n, fam) {
        if c.mine() {
            nary_sources!(cb, (c, m));
            nary_sources!(cbl, (c, m));
        }
    }
    let n = c.pick(9, 11, 4);
    c.bound(format!("every binary tree shape with <= {n} nodes, {}", fam_str(fam)));
    for ref m in binary_all(n, fam) {
        if c.mine() {
            bin_sources!(cb, (c, m));
            bin_sources!(cbl, (c, m));
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C03", &[], run);
}
