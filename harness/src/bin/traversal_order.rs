use mc::tree_iterators_rs::prelude::*;
use mc::*;
#[path = "../each_walks.rs"]
mod each_walks;
use each_walks::*;

macro_rules! post {
    (owned, $t:ident, $m:expr) => {};
    (muts, $t:ident, $m:expr) => {
        untouched_or(&$t.back(), $m, 1)?;
    };
    (refs, $t:ident, $m:expr) => {
        untouched_or(&$t.back(), $m, 0)?;
    };
}
fn set_touched(m: &M, n: u32) -> M {
    M { touched: n, kids: m.kids.iter().map(|k| set_touched(k, n)).collect(), ..m.clone() }
}
fn untouched_or(back: &M, m: &M, n: u32) -> Result<(), String> {
    let want = set_touched(m, n);
    if *back != want {
        return Err(format!("tree after iteration is {back}, expected {want}"));
    }
    Ok(())
}

fn drain<I: Iterator>(mut it: I, want: &[u32], st: &mut Stats) -> Result<(), String>
where
    I::Item: Obs,
{
    let mut got = vec![];
    while let Some(mut v) = it.next() {
        got.push(v.id());
        v.touch();
        if v.touched() > 1 {
            return Err(format!("value {} was yielded twice", v.id()));
        }
        st.step();
        if got.len() > want.len() {
            break;
        }
    }
    st.sees(got.iter().copied());
    if got != want {
        return Err(format!("yielded {got:?}, expected {want:?}"));
    }
    for _ in 0..2 {
        if it.next().is_some() {
            return Err("yielded an element after None".into());
        }
        st.step();
    }
    Ok(())
}

macro_rules! cb {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        $c.case(&|| format!("{} on {}", $label, $m), &mut |st| {
            let want = $m.order($order);
            #[allow(unused_mut)]
            let mut $t = <$N>::build($m);
            drain($it, &want, st)?;
            post!($own, $t, $m);
            Ok(())
        });
    };
}

pub fn run(c: &mut Ctx) {
    let fam = c.pick(300, 300, 0);
    let n = c.pick(11, 13, 4);
    c.bound(format!("every n-ary tree shape with <= {n} nodes, {}", fam_str(fam)));
    for ref m in nary_all(n, fam) {
        if c.mine() {
            nary_sources!(cb, (c, m));
        }
    }
    let n = c.pick(10, 12, 4);
    c.bound(format!("every binary tree shape with <= {n} nodes, {}", fam_str(fam)));
    for ref m in binary_all(n, fam) {
        if c.mine() {
            bin_sources!(cb, (c, m));
        }
    }
    let n = c.pick(6, 7, 2);
    c.bound(format!("every *_each traversal of every collection of n-ary or binary trees with <= {n} nodes in total x every container"));
    all_traversals::<true, false>(c, n);
    let (many, trees) = c.pick((130, 130), (300, 300), (0, 0));
    c.bound(format!("the same on families of larger collections: up to {many} small trees, and 15 families of trees with up to {trees} nodes, alone, in pairs, between small ones and forty of them"));
    family_traversals::<true, false>(c, many, trees);
}

#[allow(dead_code)]
fn main() {
    main_for("C01", &[], run);
}
