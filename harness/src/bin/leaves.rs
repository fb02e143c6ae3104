use mc::tree_iterators_rs::prelude::*;
use mc::*;
use std::collections::BTreeSet;

/// leaves not yet yielded after `k` elements of the source order, in the documented order
fn want(m: &M, o: Order, k: usize) -> Vec<u32> {
    let seen: BTreeSet<u32> = m.order(o).into_iter().take(k).collect();
    let leaf: BTreeSet<u32> = m.leaf_ids().into_iter().collect();
    let out = if o == Order::Bfs { Order::Bfs } else { Order::Post };
    m.order(out).into_iter().filter(|i| leaf.contains(i) && !seen.contains(i)).collect()
}

fn drain<I: Iterator>(mut it: I, want: &[u32], st: &mut Stats) -> Result<(), String>
where
    I::Item: Obs,
{
    let mut got = vec![];
    while let Some(mut v) = it.next() {
        got.push(v.id());
        v.touch();
        if v.touched() > 1 {
            return Err(format!("value {} was yielded twice", v.id()));
        }
        st.step();
        if got.len() > want.len() {
            break;
        }
    }
    st.sees(got.iter().copied());
    if got != want {
        return Err(format!("yielded {got:?}, expected {want:?}"));
    }
    if it.next().is_some() || it.next().is_some() {
        return Err("yielded an element after None".into());
    }
    Ok(())
}

macro_rules! cb {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        for k in cuts($m.size()) {
            $c.case(&|| format!("{}.leaves() after {k} on {}", $label, $m), &mut |st| {
                let want = want($m, $order, k);
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it;
                for _ in 0..k {
                    it.next().map(|mut v| v.touch());
                    st.step();
                }
                drain(it.leaves(), &want, st)
            });
        }
    };
}

pub fn run(c: &mut Ctx) {
    let fam = c.pick(300, 300, 0);
    let n = c.pick(10, 12, 4);
    c.bound(format!("every n-ary tree shape with <= {n} nodes, {}, leaves() called after every number of yielded elements", fam_str(fam)));
    for ref m in nary_all(n, fam) {
        if c.mine() {
            nary_sources!(cb, (c, m));
        }
    }
    let n = c.pick(9, 11, 4);
    c.bound(format!("every binary tree shape with <= {n} nodes, {}, leaves() called after every number of yielded elements", fam_str(fam)));
    for ref m in binary_all(n, fam) {
        if c.mine() {
            bin_sources!(cb, (c, m));
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C02", &[], run);
}
