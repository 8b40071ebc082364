#!/usr/bin/env python3
"""usage: addworld.py ID module 'module::World' runs  — registers a check"""
import sys
cid, mod, *pairs = sys.argv[1:]
p='src/worlds/mod.rs'; s=open(p).read()
if f'pub mod {mod};' not in s:
    lines=sorted(set(s.strip().split('\n')+[f'pub mod {mod};'])); open(p,'w').write('\n'.join(lines)+'\n')
p='src/registry.rs'; s=open(p).read().rstrip()
assert s.endswith("]\n}")
w=''.join(f"                (&{pairs[i]}, {pairs[i+1]}),\n" for i in range(0,len(pairs),2))
if f'id: "{cid}"' in s: sys.exit("already")
s=s[:-len("    ]\n}")]+f'''        Check {{
            id: "{cid}",
            worlds: vec![
{w}            ],
            thorough_factor: 100.0,
        }},
    ]
}}
'''
open(p,'w').write(s)
