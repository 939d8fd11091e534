#!/usr/bin/env python3
"""Write sim/src/params_{real,toy}.rs: the oracle's own copy of the FESTA
parameters, taken once from the shipped fields.rs / fields_sim_toy.rs."""
import re, sys
def grab(path):
    s = open(path).read()
    def arr(name):
        m = re.search(r'const %s: \[[^\]]*\] = \[(.*?)\];' % name, s, re.S)
        return m.group(1)
    def big(name):
        w = [int(x, 16) for x in re.findall(r'0x[0-9A-Fa-f_]+', arr(name))]
        return sum(v << (32*i) for i, v in enumerate(w))
    def fac(name):
        return [(int(a), int(b)) for a, b in re.findall(r'\(\s*(\d+)\s*,\s*(\d+)\s*\)', arr(name))]
    def num(name): return int(re.search(r'const %s: u32 = (\d+);' % name, s).group(1))
    return big, fac, num
for fl, path in (("real", sys.argv[1]), ("toy", sys.argv[2])):
    big, fac, num = grab(path)
    p = big("BIGUINT_MODULUS"); assert p + 1 == big("BASIS_ORDER")
    b, L = num("THETA_ISOGENY_LENGTH"), num("L_POWER")
    assert big("M1")**2*big("DA1")*big("D1") + big("M2")**2*big("DA2")*big("D2") == 2**b and L == b+2
    with open(sys.argv[3] + "/params_%s.rs" % fl, "w") as o:
        o.write("// Oracle copy of the parameters (tools/gen_params.py).\n")
        o.write("pub const NAME: &str = \"%s\";\n" % fl)
        o.write("pub const NL: usize = %d;\n" % ((p.bit_length()+63)//64))
        o.write("pub const P_HEX: &str = \"%x\";\n" % p)
        o.write("pub const L_POWER: u32 = %d;\n" % L)
        for n in ("D1", "D2", "DA1", "DA2"):
            o.write("pub const %s_HEX: &str = \"%x\";\n" % (n, big(n)))
            f = fac(n + "_FACTORED")
            o.write("pub const %s_FACTORED: &[(u32, u32)] = &%s;\n" % (n, f))
            pr = 1
            for l, e in f: pr *= l**e
            assert pr == big(n) or pr*pr == big(n)
