//! Oracle for one yielded `TreeContext`.
use crate::model::{Info, Order, M};
use crate::nodes::KidObs;
use crate::runner::Stats;
use crate::track::Obs;
use std::collections::{BTreeMap, BTreeSet};
use tree_iterators_rs::prelude::TreeContext;

pub type Want = (Vec<u32>, BTreeMap<u32, Info>);
pub fn want(m: &M, o: Order) -> Want {
    (m.order(o), m.infos().into_iter().map(|i| (i.id, i)).collect())
}
pub fn want_forest(f: &[M], o: Order) -> Want {
    (f.iter().flat_map(|m| m.order(o)).collect(), crate::forest_infos(f).into_iter().map(|i| (i.id, i)).collect())
}

/// `kids`: whether this API documents children as available; `muts`: values seen earlier carry one
/// in-place modification
#[allow(clippy::too_many_arguments)]
pub fn check_ctx<T: Obs, C: KidObs>(s: &TreeContext<T, C>, want: &Want, i: usize, seen: &BTreeSet<u32>, muts: bool, kids: bool, st: &mut Stats) -> Result<u32, String> {
    let got: Vec<u32> = s.ancestors().iter().map(|v| v.id()).collect();
    let Some(id) = want.0.get(i) else { return Err(format!("yielded {got:?} after the last node")) };
    let w = &want.1[id];
    st.sees(got.iter().copied());
    st.sees(s.path().iter().map(|p| *p as u32));
    st.step();
    if got != w.anc {
        return Err(format!("step {i}: ancestors {got:?}, expected {:?}", w.anc));
    }
    if s.path() != w.path {
        return Err(format!("step {i} (node {id}): path {:?}, expected {:?}", s.path(), w.path));
    }
    if s.depth() != w.anc.len() - 1 {
        return Err(format!("step {i} (node {id}): depth {}, expected {}", s.depth(), w.anc.len() - 1));
    }
    if kids {
        let k = s.children().kids().ok_or("children unavailable")?;
        st.sees(k.iter().map(|k| k.1));
        if k != w.kids {
            return Err(format!("step {i} (node {id}): children {k:?}, expected {:?}", w.kids));
        }
    }
    for v in s.ancestors() {
        let w = (muts && seen.contains(&v.id())) as u32;
        if v.touched() != w {
            return Err(format!("step {i}: value {} shows {} modifications, expected {w}", v.id(), v.touched()));
        }
    }
    Ok(*id)
}

/// walk a context iterator to its end, modifying in place where possible; evaluates to the number
/// of yielded contexts
#[macro_export]
macro_rules! walk_ctx {
    (refs, $o:expr, $it:ident, $w:ident, $st:ident) => {
        $crate::walk_ctx!(@run $it, $w, $st, next, false, true, |_s: &_| {})
    };
    (owned, $o:expr, $it:ident, $w:ident, $st:ident) => {
        $crate::walk_ctx!(@run $it, $w, $st, next_mut, true, !matches!($o, $crate::Order::In | $crate::Order::Post), |s: &mut TreeContext<_, _>| { $crate::Obs::touch(s.ancestors_mut().last_mut().unwrap()); })
    };
    (muts, $o:expr, $it:ident, $w:ident, $st:ident) => {
        $crate::walk_ctx!(@run $it, $w, $st, next_mut, true, true, |s: &mut TreeContext<_, _>| { $crate::Obs::touch(s.ancestors_mut().last_mut().unwrap()); })
    };
    (@run $it:ident, $w:ident, $st:ident, $next:ident, $muts:expr, $kids:expr, $touch:expr) => {{
        let mut seen = std::collections::BTreeSet::new();
        let mut i = 0;
        while let Some(s) = $it.$next() {
            let id = $crate::check_ctx(s, &$w, i, &seen, $muts, $kids, $st)?;
            ($touch)(s);
            seen.insert(id);
            i += 1;
        }
        i
    }};
}

