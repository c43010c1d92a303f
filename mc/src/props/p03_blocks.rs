//! Blocks come out as the blocks they were written as, in order, inside of what they were written
//! inside of.
use super::*;
use crate::engine::*;
use crate::sut;

pub fn holds(doc: &[Blk], o: &mut Obs) -> Result<(), String> {
    holds_src(doc, &source(doc), o)
}

pub fn holds_src(doc: &[Blk], src: &str, o: &mut Obs) -> Result<(), String> {
    o.ran();
    let got = sut::tree(src);
    o.saw(&got);
    same("the tree differs", &canon_all(doc), &got)
}

fn go(cx: &mut Cx, steps: usize, make: impl FnOnce(&mut Words) -> Vec<Blk>) {
    if cx.mine() {
        let doc = make(&mut Words::default());
        let src = source(&doc);
        cx.check(steps, &src, |o| {
            holds_src(&doc, &src, o)?;
            // a missing last line break changes nothing
            holds_src(&doc, src.trim_end_matches('\n'), o)
        });
    }
}

fn ok_seq(v: &[usize]) -> bool {
    v.windows(2).all(|p| !(is_list(p[0]) && is_list(p[1])))
}

pub fn run(cx: &mut Cx) {
    cx.space("sequences of blocks");
    let n = cx.tier.pick(3, 4);
    seqs(KINDS, 1..=n, |v| {
        if ok_seq(v) {
            go(cx, v.len(), |w| v.iter().map(|&k| kind(k, w)).collect());
        }
    });
    cx.space("blocks inside of blocks");
    for c in 0..CONTAINERS {
        seqs(KINDS, 0..=cx.tier.pick(2, 3), |v| {
            if ok_seq(v) && v.iter().all(|&k| delim_of(k) != container_delim(c)) {
                go(cx, v.len() + 2, |w| {
                    let inner = v.iter().map(|&k| kind(k, w)).collect();
                    vec![container(c, inner), para(&w.s())]
                });
            }
        });
    }
    cx.space("blocks attached to list items");
    for list in 0..3 {
        seqs(KINDS + CONTAINERS, 1..=2, |v| {
            // what is attached after a list belongs to the list's last item
            if v[..v.len() - 1].iter().any(|&k| is_list(k)) || v.iter().any(|&k| is_list(k) || k == 18 || k == 19) {
                return;
            }
            go(cx, v.len() + 2, |w| {
                let principal = w.w();
                let attached: Vec<Blk> = v
                    .iter()
                    .map(|&k| match k.checked_sub(KINDS) {
                        None => kind(k, w),
                        Some(c) => container(c, vec![para(&w.s()), kind(1, w)]),
                    })
                    .collect();
                let next = w.w();
                vec![
                    match list {
                        0 | 1 => B::List(
                            ["*", "."][list].into(),
                            vec![
                                Item { principal, nested: vec![], attached },
                                Item { principal: next, ..Item::default() },
                            ],
                        ),
                        _ => B::DList(vec![
                            DItem { term: w.w(), principal: Some(principal), attached, nested: vec![] },
                            DItem { term: w.w(), principal: Some(next), attached: vec![], nested: vec![] },
                        ]),
                    }
                    .into(),
                    para(&w.s()),
                ]
            });
        });
    }
    cx.space("chains of containers");
    seqs(CONTAINERS, 2..=4, |v| {
        let d: std::collections::BTreeSet<_> = v.iter().map(|&c| container_delim(c)).collect();
        if d.len() != v.len() {
            return;
        }
        for k in 0..KINDS {
            if v.iter().any(|&c| delim_of(k) == container_delim(c)) {
                continue;
            }
            for around in 0..4 {
                go(cx, v.len() + 1, |w| {
                    let mut b = kind(k, w);
                    for &c in v.iter().rev() {
                        let mut inner = vec![];
                        if around & 1 != 0 {
                            inner.push(para(&w.s()));
                        }
                        inner.push(b);
                        if around & 2 != 0 {
                            inner.push(para(&w.s()));
                        }
                        b = container(c, inner);
                    }
                    vec![b, para(&w.s())]
                });
            }
        }
    });
    cx.space("two containers, one after the other, inside of a third");
    for a in 0..CONTAINERS {
        for b in 0..CONTAINERS {
            for c in 0..CONTAINERS {
                if container_delim(a) == container_delim(b) || container_delim(a) == container_delim(c) {
                    continue;
                }
                for k in 0..KINDS {
                    if [a, b].iter().any(|&x| container_delim(x) == delim_of(k)) {
                        continue;
                    }
                    go(cx, 5, |w| {
                        let x = kind(k, w);
                        let y = para(&w.s());
                        vec![container(a, vec![container(b, vec![x]), container(c, vec![y])]), para(&w.s())]
                    });
                }
            }
        }
    }
    cx.space("many blocks");
    for k in 0..KINDS {
        for n in [5, 11, 40] {
            go(cx, n, |w| {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(kind(k, w));
                    if is_list(k) {
                        v.push(para(&w.s()));
                    }
                }
                v
            });
        }
    }
    // delimiters keep blocks apart even without a blank line
    cx.space("delimited blocks without blank lines");
    let tight: Vec<usize> = vec![1, 3, 4, 5, 6, 8, 9, 12, 13, 14, 19, 24];
    seqs(tight.len(), 2..=3, |v| {
        if cx.mine() {
            let mut w = Words::default();
            let doc: Vec<Blk> = v.iter().map(|&k| kind(tight[k], &mut w)).collect();
            let mut out = Writer::default();
            out.blocks(&doc, "\n");
            let src = out.out + "\n";
            cx.check(v.len(), &src, |o| holds_src(&doc, &src, o));
        }
    });
    cx.space("admonitions");
    for k in ["note", "tip", "important", "caution", "warning"] {
        for inner in 0..KINDS {
            go(cx, 2, |w| {
                if delim_of(inner) == "====" {
                    vec![B::AdmonPara(k, w.two()).into(), kind(inner, w)]
                } else {
                    vec![B::AdmonBlock(k, vec![kind(inner, w), para(&w.s())]).into(), B::AdmonPara(k, w.w()).into()]
                }
            });
        }
    }
}
