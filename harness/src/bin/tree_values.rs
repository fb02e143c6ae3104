//! `Tree` and `BinaryTree` as plain values: equality, cloning, default, `cloned()` and serde.
use mc::tree_iterators_rs::prelude::*;
use mc::*;

/// shape x labelling: every value is a bit of `lab`
fn lab(m: &M, bits: u32) -> M {
    M { id: bits >> m.id & 1, kids: m.kids.iter().map(|k| lab(k, bits)).collect(), ..m.clone() }
}
trait Val: Sized {
    fn make(m: &M) -> Self;
}
impl Val for Tree<u32> {
    fn make(m: &M) -> Self {
        Tree { value: m.id, children: m.kids.iter().map(Self::make).collect() }
    }
}
impl Val for BinaryTree<u32> {
    fn make(m: &M) -> Self {
        let side = |s: usize| m.kids.iter().find(|k| k.slot == s).map(|k| Box::new(Self::make(k)));
        BinaryTree { value: m.id, left: side(0), right: side(1) }
    }
}
fn json(m: &M) -> serde_json::Value {
    if m.binary {
        let side = |s: usize| m.kids.iter().find(|k| k.slot == s).map(json).unwrap_or(serde_json::Value::Null);
        serde_json::json!({"value": m.id, "left": side(0), "right": side(1)})
    } else {
        serde_json::json!({"value": m.id, "children": m.kids.iter().map(json).collect::<Vec<_>>()})
    }
}

macro_rules! pair {
    ($c:ident, $a:ident, $b:ident, $N:ident, $nm:literal) => {
        $c.case(&|| format!("{}: {} == {}", $nm, $a, $b), &mut |st| {
            let (x, y) = ($N::<u32>::make($a), $N::<u32>::make($b));
            st.step();
            let want = $a == $b;
            st.see(want as u64);
            if (x == y) != want || (x != y) == want {
                return Err(format!("== is {}, != is {}, expected equal: {want}", x == y, x != y));
            }
            Ok(())
        });
        $c.case(&|| format!("{}: a tree {} overwritten with clone_from({})", $nm, $a, $b), &mut |st| {
            let (mut x, y) = ($N::<u32>::make($a), $N::<u32>::make($b));
            st.step();
            x.clone_from(&y);
            if x != y {
                return Err(format!("the tree is now {x:?}"));
            }
            let (mut x, y) = (vec![$N::<u32>::make($a)], vec![$N::<u32>::make($b), $N::<u32>::make($a)]);
            x.clone_from(&y);
            if x != y {
                return Err(format!("inside a Vec the trees are now {x:?}"));
            }
            Ok(())
        });
    };
}
macro_rules! single {
    ($c:ident, $m:ident, $N:ident, $nm:literal) => {
        $c.case(&|| format!("{}: clone of {}", $nm, $m), &mut |st| {
            let mut a = $N::<V>::build($m);
            let b = a.clone();
            st.step();
            if a != b || b.back() != *$m {
                return Err(format!("the clone is {}", b.back()));
            }
            // independent of the original
            for v in a.dfs_preorder_iter_mut() {
                v.touch();
                st.step();
            }
            if b.back() != *$m {
                return Err(format!("changing the original changed the clone to {}", b.back()));
            }
            drop(a);
            if b.back() != *$m {
                return Err("dropping the original changed the clone".into());
            }
            Ok(())
        });
        $c.case(&|| format!("{}: cloned() of a tree of references of {}", $nm, $m), &mut |st| {
            let mut a = $N::<V>::build($m);
            st.step();
            let r = a.map_ref(|v| v).cloned();
            let got = Build::back(&r);
            if got != *$m {
                return Err(format!("from shared references: {got}"));
            }
            let r2 = a.map_mut(|v| v).cloned();
            let got = Build::back(&r2);
            if got != *$m {
                return Err(format!("from unique references: {got}"));
            }
            for v in a.dfs_preorder_iter_mut() {
                v.touch();
            }
            drop(a);
            if Build::back(&r) != *$m || Build::back(&r2) != *$m {
                return Err("the cloned tree shares values with its source".into());
            }
            Ok(())
        });
        // serde_json refuses to go deeper than 128 levels of its own
        if $m.height() <= 40 && $m.size() <= 300 { $c.case(&|| format!("{}: serde of {}", $nm, $m), &mut |st| {
            let t = $N::<u32>::make($m);
            st.step();
            let text = serde_json::to_string(&t).map_err(|e| format!("serialize: {e}"))?;
            let back: $N<u32> = serde_json::from_str(&text).map_err(|e| format!("deserialize {text}: {e}"))?;
            if back != t {
                return Err(format!("{text} was read back as {back:?}"));
            }
            let v = serde_json::to_value(&t).map_err(|e| e.to_string())?;
            if v != json($m) {
                return Err(format!("serialized as {v}, expected {}", json($m)));
            }
            let back: $N<u32> = serde_json::from_value(json($m)).map_err(|e| format!("deserialize {}: {e}", json($m)))?;
            st.see(text.len() as u64);
            if back != t {
                return Err(format!("{} was read as {back:?}", json($m)));
            }
            Ok(())
        }); }
    };
}
/// a larger tree against itself with one value changed, one subtree removed, one leaf added
fn near(m: &M) -> Vec<M> {
    fn rec(t: &mut M, path: &[usize], f: &dyn Fn(&mut M)) {
        match path.split_first() {
            None => f(t),
            Some((i, rest)) => rec(t.kids.iter_mut().find(|k| k.slot == *i).unwrap(), rest, f),
        }
    }
    let mut out = vec![m.clone()];
    let infos = m.infos();
    for i in cuts(infos.len()).into_iter().filter_map(|i| infos.get(i)) {
        let p = &i.path[..];
        let mut with = |p: &[usize], f: &dyn Fn(&mut M)| {
            let mut t = m.clone();
            rec(&mut t, p, f);
            out.push(t);
        };
        with(p, &|t| t.id += 1000);
        if let Some((last, up)) = p.split_last() {
            let last = *last;
            with(up, &|t| t.kids.retain(|k| k.slot != last));
        }
        let used = i.kids.len();
        if !m.binary || used == 0 {
            with(p, &|t| t.kids.push(M { slot: used, binary: t.binary, ..M::default() }));
        }
        if m.binary && used == 1 {
            // the only child on the other side
            with(p, &|t| t.kids[0].slot = 1 - t.kids[0].slot);
        }
    }
    out
}

pub fn run(c: &mut Ctx) {
    c.check_leaks = true;
    c.case(&|| "default".into(), &mut |st| {
        st.step();
        let (t, b) = (Tree::<V>::default(), BinaryTree::<V>::default());
        if t.value != V::default() || !t.children.is_empty() || b.value != V::default() || b.left.is_some() || b.right.is_some() {
            return Err("the default tree is not a single node with the default value".into());
        }
        Ok(())
    });
    let fam = c.pick(300, 300, 0);
    let n = c.pick(10, 11, 3);
    c.bound(format!("every n-ary and binary tree shape with <= {n} nodes, {}: clone, cloned(), serde round trip and format", fam_str(fam)));
    for ref m in nary_all(n, fam) {
        if c.mine() {
            single!(c, m, Tree, "Tree");
        }
    }
    for ref m in binary_all(n, fam) {
        if c.mine() {
            single!(c, m, BinaryTree, "BinaryTree");
        }
    }
    let sizes = c.pick(vec![12, 17, 33, 65, 66, 130, 258], family_sizes(300), vec![]);
    c.bound(format!("equality and clone_from of 15 families of trees of the sizes {sizes:?} and all that differ from them by one value, one subtree less, one leaf more or the side of an only child"));
    for m in &nary_families_of(&sizes) {
        if c.mine() {
            for b in &near(m) {
                pair!(c, m, b, Tree, "Tree");
            }
        }
    }
    for m in &binary_families_of(&sizes) {
        if c.mine() {
            for b in &near(m) {
                pair!(c, m, b, BinaryTree, "BinaryTree");
            }
        }
    }
    let n = c.pick(5, 5, 3);
    c.bound(format!("equality of every pair of labelled trees (two labels) with <= {n} nodes"));
    let all = |f: &dyn Fn(usize) -> Vec<M>| -> Vec<M> {
        (1..=n).flat_map(|s| f(s).into_iter().flat_map(move |m| (0..1u32 << s).map(move |b| lab(&m, b)))).collect()
    };
    let (na, bi) = (all(&nary_shapes), all(&binary_shapes));
    for a in &na {
        if c.mine() {
            for b in &na {
                pair!(c, a, b, Tree, "Tree");
            }
        }
    }
    for a in &bi {
        if c.mine() {
            for b in &bi {
                pair!(c, a, b, BinaryTree, "BinaryTree");
            }
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C19", &["serde_json is the data format used for the round trip"], run);
}
