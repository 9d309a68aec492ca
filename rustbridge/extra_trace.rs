#[pymodule]
mod extra {
    use pyo3::pyfunction;
    use crate::instrs::{CompProg, Parse as _};
    use crate::prover::{Prover, ProverResult};
    use crate::rules::apply_rule;
    use crate::tape::{BasicTape, ColorCount, GetSig};

    type Spans = (Vec<(u64, u64)>, u64, Vec<(u64, u64)>);

    fn side(sig: &[ColorCount], counts: &[u64]) -> Vec<(u64, u64)> {
        sig.iter().zip(counts).map(|(c, n)| match c {
            ColorCount::Just(c) | ColorCount::Mult(c) => (*c, *n),
        }).collect()
    }

    fn spans(t: &BasicTape) -> Spans {
        let sig = t.signature();
        let (l, r) = t.counts();
        (side(&sig.lspan, &l), sig.scan, side(&sig.rspan, &r))
    }

    /// every rule application of a run: (state, tape before, times, tape after)
    #[pyfunction]
    pub fn x_trace(prog: &str, lim: usize, most: usize, big: u64) -> Vec<(u64, Spans, u64, Spans)> {
        let comp = CompProg::from_str(prog);
        let mut tape = BasicTape::init(0);
        let mut prover = Prover::new(&comp);
        let mut state = 0;
        let mut out = vec![];
        for cycle in 0..lim {
            match prover.try_rule(cycle as i32, state, &tape) {
                None => {},
                Some(ProverResult::Got(rule)) => {
                    let before = spans(&tape);
                    if let Some(times) = apply_rule(&rule, &mut tape) {
                        let after = spans(&tape);
                        if after.0.iter().chain(&after.2).any(|b| b.1 > big) {
                            break;
                        }
                        out.push((state, before, times, after));
                        if out.len() >= most {
                            break;
                        }
                        continue;
                    }
                },
                Some(_) => break,
            }
            let Some(&(color, shift, next)) = comp.get(&(state, tape.scan)) else { break };
            let same = state == next;
            if same && tape.at_edge(shift) {
                break;
            }
            tape.step(shift, color, same);
            state = next;
        }
        out
    }

    /// every cycle of a run: (state, tape before, whether a rule was applied), and whether the limit ended it
    #[pyfunction]
    pub fn x_walk(prog: &str, lim: usize) -> (Vec<(u64, Spans, bool)>, bool) {
        let comp = CompProg::from_str(prog);
        let mut tape = BasicTape::init(0);
        let mut prover = Prover::new(&comp);
        let mut state = 0;
        let mut out = vec![];
        for cycle in 0..lim {
            let before = spans(&tape);
            match prover.try_rule(cycle as i32, state, &tape) {
                None => {},
                Some(ProverResult::Got(rule)) => {
                    if apply_rule(&rule, &mut tape).is_some() {
                        out.push((state, before, true));
                        continue;
                    }
                },
                Some(_) => return (out, false),
            }
            out.push((state, before, false));
            let Some(&(color, shift, next)) = comp.get(&(state, tape.scan)) else { return (out, false) };
            let same = state == next;
            if same && tape.at_edge(shift) {
                return (out, false);
            }
            tape.step(shift, color, same);
            state = next;
            if color == 0 && tape.blank() {
                return (out, false);
            }
        }
        (out, true)
    }
}
