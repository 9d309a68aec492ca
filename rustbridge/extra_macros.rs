#[pymodule]
mod extra {
    use pyo3::pyfunction;
    use crate::instrs::{CompProg, GetInstr, Params, Parse as _};
    use crate::macros::{make_backsymbol_macro, make_block_macro};
    use crate::prover::{Prover, ProverResult};
    use crate::rules::apply_rule;
    use crate::tape::BasicTape;

    type Found = Vec<((u64, u64), Vec<(u64, bool, u64)>)>;

    fn explore(m: &impl GetInstr, colors: u64, picks: &[(usize, usize)]) -> Found {
        let mut states = vec![0];
        let mut cols: Vec<u64> = (0..colors).collect();
        let mut out = vec![];
        for &(i, j) in picks {
            let slot = (states[i % states.len()], cols[j % cols.len()]);
            let got = m.get_instr(&slot);
            if let Some((c, _, s)) = got {
                if !states.contains(&s) {
                    states.push(s);
                }
                if !cols.contains(&c) {
                    cols.push(c);
                }
            }
            out.push((slot, got.into_iter().collect()));
        }
        out
    }

    /// asks a macro for instructions, of states and colors already met
    #[pyfunction]
    pub fn x_macro(prog: &str, params: Params, blocks: usize, backsym: usize, picks: Vec<(usize, usize)>) -> Found {
        let comp = CompProg::from_str(prog);
        if blocks > 0 {
            let inner = make_block_macro(&comp, params, blocks);
            if backsym > 0 {
                let params = (2 * params.0, params.1.pow(blocks as u32));
                return explore(&make_backsymbol_macro(&inner, params, backsym), 1, &picks);
            }
            return explore(&inner, 1, &picks);
        }
        let m = make_backsymbol_macro(&comp, params, backsym);
        explore(&m, params.1, &picks)
    }

    fn infinite(comp: &impl GetInstr, lim: usize) -> bool {
        let mut tape = BasicTape::init(0);
        let mut prover = Prover::new(comp);
        let mut state = 0;
        for cycle in 0..lim {
            match prover.try_rule(cycle as i32, state, &tape) {
                None => {},
                Some(ProverResult::InfiniteRule) => return true,
                Some(ProverResult::Got(rule)) => {
                    if apply_rule(&rule, &mut tape).is_some() {
                        continue;
                    }
                },
                Some(_) => return false,
            }
            let Some((color, shift, next)) = comp.get_instr(&(state, tape.scan)) else { return false };
            let same = state == next;
            if same && tape.at_edge(shift) {
                return false;
            }
            tape.step(shift, color, same);
            state = next;
        }
        false
    }

    /// whether a rule that never ends is proved through the macro
    #[pyfunction]
    pub fn x_infinite(prog: &str, params: Params, blocks: usize, backsym: usize, lim: usize) -> bool {
        let comp = CompProg::from_str(prog);
        if blocks > 0 {
            let inner = make_block_macro(&comp, params, blocks);
            if backsym > 0 {
                let params = (2 * params.0, params.1.pow(blocks as u32));
                return infinite(&make_backsymbol_macro(&inner, params, backsym), lim);
            }
            return infinite(&inner, lim);
        }
        if backsym > 0 {
            return infinite(&make_backsymbol_macro(&comp, params, backsym), lim);
        }
        infinite(&comp, lim)
    }
}
