#[pymodule]
mod extra {
    use pyo3::pyfunction;
    use std::collections::BTreeMap;
    use crate::rules::{apply_rule, make_rule, Op, Rule};
    use crate::tape::{Count, Index, IndexTape};

    struct Shelf(BTreeMap<Index, Count>);

    impl IndexTape for Shelf {
        fn get_count(&self, index: &Index) -> Count {
            self.0[index]
        }
        fn set_count(&mut self, index: &Index, val: Count) {
            *self.0.get_mut(index).unwrap() = val;
        }
    }

    /// (times, counts afterwards); the counts as (side, place, count)
    #[pyfunction]
    pub fn x_apply(rule: Vec<(bool, usize, i32)>, counts: Vec<(bool, usize, u64)>)
        -> (Option<u64>, Vec<(bool, usize, u64)>) {
        let rule: Rule = rule.into_iter().map(|(s, i, d)| ((s, i), Op::Plus(d))).collect();
        let mut tape = Shelf(counts.into_iter().map(|(s, i, n)| ((s, i), n)).collect());
        let times = apply_rule(&rule, &mut tape);
        (times, tape.0.into_iter().map(|((s, i), n)| (s, i, n)).collect())
    }

    /// (side, place, multiplies, a, b): a plus, or times a plus b
    #[pyfunction]
    pub fn x_make(c: Vec<(Vec<u64>, Vec<u64>)>) -> Option<Vec<(bool, usize, bool, i32, i32)>> {
        make_rule(&c[0], &c[1], &c[2], &c[3]).map(|rule| {
            rule.into_iter()
                .map(|((s, i), op)| match op {
                    Op::Plus(d) => (s, i, false, d, 0),
                    Op::Mult((m, a)) => (s, i, true, m, a),
                })
                .collect()
        })
    }
}
