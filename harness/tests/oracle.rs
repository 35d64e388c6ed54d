//! The reference analysis against the definitions: FIRST and FOLLOW read off enumerated sentential
//! forms. Run by hand: cargo test --release --manifest-path harness/Cargo.toml
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use vp_harness::gen::{Small, SmallScope};
use vp_harness::gram::Gram;

/// Sentential forms of `a`, at most `len` symbols and `cap` forms. True when complete up to `len`.
fn forms(g: &Gram, a: u16, len: usize, cap: usize) -> HashSet<Vec<u16>> {
    let mut seen: HashSet<Vec<u16>> = HashSet::new();
    let mut q = VecDeque::new();
    q.push_back(vec![a]);
    seen.insert(vec![a]);
    while let Some(f) = q.pop_front() {
        if seen.len() > cap {
            break;
        }
        for i in 0..f.len() {
            if !g.is_nt(f[i]) {
                continue;
            }
            for p in &g.by_lhs[&f[i]] {
                let mut n = f[..i].to_vec();
                n.extend(g.prods[*p].1.iter().filter(|s| **s != g.eps));
                n.extend_from_slice(&f[i + 1..]);
                if n.len() <= len && seen.insert(n.clone()) {
                    q.push_back(n);
                }
            }
        }
    }
    seen
}

#[test]
fn first_and_follow_match_sentential_forms() {
    let s = SmallScope::new(Small::Grammars, 2, 0);
    let (mut n, mut equal) = (0u64, 0u64);
    let mut i = 0;
    while i < s.total() {
        if let Some(c) = s.case(i) {
            let g = Gram::new(&c);
            let mut first: BTreeMap<u16, BTreeSet<u16>> = g.nts.iter().map(|a| (*a, BTreeSet::new())).collect();
            let mut follow = first.clone();
            let mut nullable = BTreeSet::new();
            for a in &g.nts {
                for f in forms(&g, *a, 5, 4000) {
                    match f.first() {
                        None => {
                            nullable.insert(*a);
                        }
                        Some(x) if !g.is_nt(*x) => {
                            first.get_mut(a).unwrap().insert(*x);
                        }
                        _ => {}
                    }
                    for w in f.windows(2) {
                        if g.is_nt(w[0]) && !g.is_nt(w[1]) {
                            follow.get_mut(&w[0]).unwrap().insert(w[1]);
                        }
                    }
                }
            }
            n += 1;
            assert!(nullable.is_subset(&g.nullable), "{}", c.brief());
            for a in &g.nts {
                assert!(first[a].is_subset(&g.first[a]), "{}", c.brief());
                assert!(follow[a].is_subset(&g.follow[a]), "{}", c.brief());
            }
            assert_eq!(nullable, g.nullable, "{}", c.brief());
            assert_eq!(first, g.first, "{}", c.brief());
            if follow == g.follow {
                equal += 1;
            } else {
                println!("follow differs: {} {:?} {:?}", c.brief(), follow, g.follow);
            }
        }
        i += 37;
    }
    println!("{} grammars, {} with equal FOLLOW", n, equal);
    assert_eq!(n, equal);
}
