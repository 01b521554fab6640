#!/usr/bin/env python3
"""Writes src/main.rs: one match arm for every pattern of the notation."""
import itertools, os
pats = []
for up in range(8):
    for k in range(5):
        for low in itertools.product("01", repeat=k):
            for ph in itertools.product("np", repeat=4 - k):
                pats.append(f"E{up:03b} " + "".join(low) + "".join(ph))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "main.rs"), "w") as f:
    f.write("// Written by gen.py: every pattern E bbb b*{n|p}*, one arm per line.\n"
            "use libmbus_macros::vif;\n#[rustfmt::skip]\nfn hit(p: usize, v: u8) -> bool {\n\tmatch p {\n")
    for i, p in enumerate(pats):
        f.write(f"\t\t{i} => matches!(v, vif!({p})),\n")
    f.write("\t\t_ => unreachable!(),\n\t}\n}\n#[rustfmt::skip]\nconst PATS: &[&str] = &[\n")
    for p in pats:
        f.write(f'\t"{p}",\n')
    f.write("""];
fn main() {
	for (i, p) in PATS.iter().enumerate() {
		let j = |it: &mut dyn Iterator<Item = u8>| it.map(|b| b.to_string()).collect::<Vec<_>>().join(",");
		println!(
			"{{\\"i\\":{},\\"op\\":\\"pat\\",\\"a\\":[],\\"in\\":[{}],\\"st\\":\\"ok\\",\\"rest\\":0,\\"ev\\":[{{\\"e\\":\\"Match\\",\\"s\\":\\"\\",\\"n\\":[{}]}}]}}",
			i + 1, j(&mut p.bytes()), j(&mut (0..=255u8).filter(|v| hit(i, *v))),
		);
	}
}
""")
print(len(pats))
