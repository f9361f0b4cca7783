PROPERTY='C13'
NEEDS='more than 65535 marked positions'
BREAKS='the total is accumulated in sixteen bits'
EDITS=[('src/multiexp.rs', '        self.bv.count_ones()\n', '        // Count a word at a time; the unused bits of the last word are zero.\n        self.bv\n            .as_raw_slice()\n            .iter()\n            .fold(0u16, |acc, word| acc.wrapping_add(word.count_ones() as u16))\n            .into()\n')]
DEMO='use bellman::multiexp::{DensityTracker, QueryDensity};\nfn main() {\n    let mut d = DensityTracker::new();\n    for i in 0..70000 { d.add_element(); if i != 5 { d.inc(i); d.inc(i); } }\n    assert_eq!((&d).iter().filter(|b| *b).count(), d.get_total_density());\n}\n'
