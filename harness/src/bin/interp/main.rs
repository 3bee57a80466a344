//! Model-based random programs: every observable event of the execution is
//! compared with a reference semantics.
mod model;
mod real;
mod script;
use script::*;
use std::hash::{Hash, Hasher};
use vh::rep;
use vh::rng::Rng;

fn build(seed: u64, case: u64, profile: &str) -> Program {
    let mut r = Rng::new(seed, case);
    let w = weights(profile, &mut r);
    let nbodies = r.range(1, 4);
    Gen { r: &mut r, w, nbodies }.program()
}
fn main() {
    let a = rep::args();
    real::init();
    let unwind = cfg!(feature = "unwind");
    let mut st = rep::Stats::new();
    for case in a.cases() {
        rep::case(case, &a.profile);
        let p = build(a.seed, case, &a.profile);
        if a.dump {
            println!("main {:#?}\nbodies {:#?}", p.main, p.bodies);
        }
        let expect = model::Machine::new(&p, unwind, real::proj).run();
        if a.dump {
            for (i, e) in expect.iter().enumerate() {
                println!("{i}: {e:?}");
            }
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        expect.hash(&mut h);
        let n = expect.len();
        if n > 20 {
            let s = expect[5..15].to_vec();
            st.sample(|| format!("case {case}: {n} events, e.g. {s:?}"));
        }
        let c = real::run(&p, unwind, expect);
        st.evals += 1;
        st.add("events", n as u64);
        st.add("switch_calls", c.switches);
        let mut kinds = 0;
        for (k, &n) in real::KINDS.iter().zip(&c.kinds) {
            st.add(k, n);
            kinds += (n > 0) as u32;
        }
        // Trivial programs do not count.
        if c.switches >= 3 && kinds >= 6 {
            st.distinct(h.finish());
        }
    }
    st.finish()
}
