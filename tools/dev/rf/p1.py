p='/repo/ratel/src/astgen/value.rs'; s=open(p).read()
a="get_unchecked(1..value.len() - 1) };"
assert a in s
open(p,'w').write(s.replace(a,"get_unchecked(1..(value.len() - 1).min(65536)) };",1))
