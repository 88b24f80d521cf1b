#![allow(dead_code, unused_imports, unused_variables)]
use anothertls::rand::{RngCore, SeedableRng, SimpleRng, URandomRng, PRNG};

include!("../inc/common.rs");

// ------------------------------------------------------------------ N01
enum Gen {
    U(URandomRng),
    I(SimpleRng<IBig>),
    S(SimpleRng<u32>),
}
fn fam_rng(_seed: u64) -> Step<'static> {
    let mut objs: Vec<Gen> = vec![];
    Box::new(move |s, ev| match s.s("op") {
        "new" => {
            objs.push(match s.s("kind") {
                "urandom" => Gen::U(URandomRng::new()),
                "simple" => Gen::I(SimpleRng::<IBig>::from_seed(IBig::from(s.n("seed")))),
                _ => Gen::S(SimpleRng::<u32>::from_seed(s.n("seed") as u32)),
            });
            ev.push(obj! {"t"=>"new","kind"=>s.s("kind"),"seed"=>s.n("seed")});
        }
        "bytes" => {
            let n = s.n("n") as usize;
            let v = match &mut objs[s.n("o") as usize - 1] {
                Gen::U(g) => g.bytes(n),
                Gen::I(g) => g.bytes(n),
                Gen::S(g) => g.bytes(n),
            };
            let win = J::Arr(v.chunks_exact(8).map(|x| J::from(hex(x))).collect());
            ev.push(obj! {"t"=>"bytes","o"=>s.n("o"),"n"=>n,"len"=>v.len(),"v"=>fp(&v),"win"=>win});
        }
        "between" => {
            let (a, b) = (s.n("a") as usize, s.n("b") as usize);
            let (sig, v, num) = match &mut objs[s.n("o") as usize - 1] {
                Gen::U(g) => {
                    let x = g.between(a, b);
                    (ib_be(&x).map(|y| y.len() as i64 - (y == [0]) as i64).unwrap_or(-1), ib_be(&x).unwrap_or_default(), 0)
                }
                Gen::I(g) => {
                    let x = g.between(a, b);
                    (ib_be(&x).map(|y| y.len() as i64 - (y == [0]) as i64).unwrap_or(-1), ib_be(&x).unwrap_or_default(), 0)
                }
                Gen::S(g) => {
                    let x = g.between(a, b);
                    (0, x.to_be_bytes().to_vec(), x as i64)
                }
            };
            let win = J::Arr(v.chunks_exact(8).map(|x| J::from(hex(x))).collect());
            ev.push(obj! {"t"=>"between","o"=>s.n("o"),"a"=>a,"b"=>b,"sig"=>sig,"num"=>num,"v"=>fp(&v),"win"=>win});
        }
        // many outputs of one size: number of different values at every position
        "many" => {
            let (n, cnt) = (s.n("n") as usize, s.n("cnt") as usize);
            let mut sets: Vec<std::collections::HashSet<u8>> = vec![Default::default(); n];
            let mut all = std::collections::HashSet::new();
            let mut lens = true;
            for _ in 0..cnt {
                let v = match (&mut objs[s.n("o") as usize - 1], s.s("what")) {
                    (Gen::U(g), "between") => {
                        let mut b = ib_be(&g.between(1, n)).unwrap_or_default();
                        while b.len() < n {
                            b.insert(0, 0);
                        }
                        b
                    }
                    (Gen::U(g), _) => g.bytes(n),
                    (Gen::I(g), _) => g.bytes(n),
                    (Gen::S(g), _) => g.bytes(n),
                };
                lens &= v.len() == n;
                for (i, b) in v.iter().enumerate().take(n) {
                    sets[i].insert(*b);
                }
                all.insert(v);
            }
            ev.push(obj! {"t"=>"many","o"=>s.n("o"),"n"=>n,"cnt"=>cnt,"lens"=>lens,"distinct"=>all.len(),"pos"=>J::Arr(sets.iter().map(|x| J::from(x.len())).collect())});
        }
        x => panic!("harness: op {x}"),
    })
}

fn family(seed: u64, dir: &str) -> Step<'static> {
    fam_rng(seed)
}
