#[pymodule]
mod extra {
    use pyo3::pyfunction;
    use crate::tape::{BasicTape, ColorCount, EnumTape, GetSig, IndexTape};

    /// the tape with these cells, made by walking over them
    fn lay(cells: &[u64], head: usize) -> BasicTape {
        let mut t = BasicTape::init(0);
        for &c in cells {
            t.step(true, c, false);
        }
        for i in (head..cells.len()).rev() {
            // the cell under the head is rewritten as it was
            let c = if i + 1 < cells.len() { cells[i + 1] } else { 0 };
            t.step(false, c, false);
        }
        t
    }

    fn side(sig: &[ColorCount], counts: &[u64]) -> Vec<(u64, u64)> {
        sig.iter().zip(counts).map(|(c, n)| match c {
            ColorCount::Just(c) | ColorCount::Mult(c) => (*c, *n),
        }).collect()
    }

    fn spans(t: &BasicTape) -> (Vec<(u64, u64)>, u64, Vec<(u64, u64)>) {
        let sig = t.signature();
        let (l, r) = t.counts();
        (side(&sig.lspan, &l), sig.scan, side(&sig.rspan, &r))
    }

    /// spans before; what was seen; depth; limits.  ops: (0, right, colour, skip) or
    /// (1, side, place, _) or (2, side, place, _) to set a count to b
    #[pyfunction]
    pub fn x_footprint(cells: Vec<u64>, head: usize, ops: Vec<(u8, bool, u64, bool, u64)>)
        -> ((Vec<(u64, u64)>, u64, Vec<(u64, u64)>), Vec<u64>, (usize, usize), (bool, bool)) {
        let plain = lay(&cells, head);
        let mut t: EnumTape = (&plain).into();
        let mut seen = vec![];
        for (kind, right, a, skip, b) in ops {
            if kind == 0 {
                seen.push(t.step(right, a, skip));
            } else {
                let sig = t.signature();
                let len = if right { sig.rspan.len() } else { sig.lspan.len() };
                if a as usize >= len {
                    seen.push(u64::MAX);
                    break;
                }
                seen.push(t.get_count(&(right, a as usize)));
                if kind == 2 {
                    t.set_count(&(right, a as usize), b);
                }
            }
            seen.push(t.scan());
        }
        (spans(&plain), seen, t.offsets(), t.limits())
    }

    /// the spans after each step of (right, colour, skip), with the steps taken
    #[pyfunction]
    pub fn x_walk(cells: Vec<u64>, head: usize, ops: Vec<(bool, u64, bool)>)
        -> Vec<((Vec<(u64, u64)>, u64, Vec<(u64, u64)>), u64, u64, bool, (bool, bool))> {
        let mut t = lay(&cells, head);
        let mut out = vec![(spans(&t), 0, t.marks(), t.blank(), (t.at_edge(false), t.at_edge(true)))];
        for (right, color, skip) in ops {
            let n = t.step(right, color, skip);
            out.push((spans(&t), n, t.marks(), t.blank(), (t.at_edge(false), t.at_edge(true))));
        }
        out
    }
}
