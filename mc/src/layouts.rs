//! Finite sets of layouts
use crate::model::*;

type Dev = (usize, fn(&mut Layout));

/// (dimension, deviation from the base layout)
fn deviations() -> Vec<Dev> {
    vec![
        (0, |l| l.step = 1),
        (0, |l| l.step = 3),
        (0, |l| l.step = 4),
        (0, |l| l.step = 7),
        (1, |l| l.seq_flush = true),
        (2, |l| l.compact = false),
        (3, |l| l.blanks = 1),
        (3, |l| l.blanks = 2),
        (4, |l| {
            l.blank_ws = true;
            if l.blanks == 0 {
                l.blanks = 1
            }
        }),
        (5, |l| l.colon_sp = 2),
        (6, |l| l.dash_sp = 3),
        (7, |l| l.trailing_ws = true),
        (8, |l| l.crlf = true),
        (9, |l| l.flow = 1),
        (9, |l| l.flow = 2),
        (9, |l| l.flow = 3),
        (9, |l| l.flow = 4),
        (9, |l| l.flow = 5),
        (9, |l| l.flow = 6),
        (10, |l| l.next_line = true),
        (11, |l| l.root_indent = 2),
        (12, |l| l.final_nl = 0),
        (12, |l| l.final_nl = 2),
        (13, |l| l.blank_after_marker = 1),
        (14, |l| l.blank_before_marker = 2),
    ]
}

/// the base layout and everything that differs from it in at most `k` dimensions
pub fn layouts(k: usize) -> Vec<Layout> {
    let devs = deviations();
    let mut out = Vec::new();
    fn go(devs: &[Dev], from: usize, left: usize, l: &Layout, last_dim: Option<usize>, out: &mut Vec<Layout>) {
        if !out.contains(l) {
            out.push(l.clone());
        }
        if left == 0 {
            return;
        }
        for i in from..devs.len() {
            if Some(devs[i].0) == last_dim {
                continue;
            }
            let mut m = l.clone();
            (devs[i].1)(&mut m);
            go(devs, i + 1, left - 1, &m, Some(devs[i].0), out);
        }
    }
    go(&devs, 0, k, &L0, None, &mut out);
    out
}
