#!/usr/bin/env python3
"""Generates harness/c40_init_{a,b,c,d}.cc: source/target struct pairs for init_from
with 1..31 members, plus the oracle derived from the same description."""
import random
R = random.Random(40)

def gen(name, sizes, pairs=False):
    o = ["// generated by tools/gen_c40.py - C40: init_from",
         "#define VF_NO_MAIN", '#include "vf.h"', '#include "utl/init_from.h"', '#include "c40_init.h"', "namespace {"]
    names = []
    for n in sizes:
        for variant in (2, 3) if pairs else range(2 if n < 12 else 1):
            # source
            types = [R.randrange(max(1, n if variant == 0 else (n + 1) // 2)) for _ in range(n)]
            if variant == 0:
                types = list(range(n)); R.shuffle(types)
            if pairs:  # neighbours of one type: the first of them is the one to be taken
                types = [(i + variant - 2) // 2 for i in range(n)]
            kinds = [R.choice("DDPUS") for _ in range(n)]
            if pairs:  # both of a kind: either is as good
                kinds = [kinds[types.index(t)] for t in types]
            id_ = "%d_%d" % (n, variant)
            o.append("struct src_%s {" % id_)
            for i, (t, k) in enumerate(zip(types, kinds)):
                o.append("  %s m%d;" % ({"D": "T<%d>", "P": "T<%d>*", "U": "uniq<T<%d>>", "S": "std::shared_ptr<T<%d>>"}[k] % t, i))
            o.append("};")
            m = n if R.random() < .6 else max(1, R.randrange(n) + 1)
            tgt = []
            order = sorted(set(types))
            R.shuffle(order)
            if pairs:  # as many as there are types: another number of members than the source has
                m = len(order)
            for k in range(m):
                t = order[k] if pairs else R.choice(types)
                cand = [i for i in range(n) if types[i] == t]
                ptrs = [i for i in cand if kinds[i] != "D"]
                if ptrs and R.random() < .4:
                    tgt.append(("P", t, ptrs[0]))
                else:
                    tgt.append(("R", t, cand[0]))
            # one-member targets for the small ones, so that no target has a source's number of members
            groups = [[x] for x in tgt] if pairs and n <= 16 else [tgt]
            for g, gt in enumerate(groups):
                o.append("struct tgt_%s_%d {" % (id_, g))
                for j, (k, t, _) in enumerate(gt):
                    o.append("  T<%d>%s r%d;" % (t, "&" if k == "R" else "*", j))
                o.append("};")
            o.append("void run_%s(vf::ctx& c) {" % id_)
            o.append("  store s{c}; src_%s src{" % id_ + ", ".join("s.%s<%d>()" % ({"D": "direct", "P": "ptr", "U": "uptr", "S": "sptr"}[k], t) for t, k in zip(types, kinds)) + "};")
            def addr(i):
                return {"D": "&src.m%d", "P": "src.m%d", "U": "src.m%d.get()", "S": "src.m%d.get()"}[kinds[i]] % i
            o.append("  auto const before = snapshot(%s);" % ", ".join(addr(i) for i in range(n)))
            for g, gt in enumerate(groups):
                o.append("  {")
                # reference bound through a null pointer -> nothing
                conds = sorted({"%s == nullptr" % addr(i) for k, t, i in gt if k == "R" and kinds[i] != "D"})
                o.append("  bool const none = %s;" % (" || ".join(conds) or "false"))
                o.append("  auto t = utl::init_from<tgt_%s_%d>(src);" % (id_, g))
                o.append('  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "%s");' % id_)
                o.append("  if (t) {")
                for j, (k, t, i) in enumerate(gt):
                    o.append('    CHECK(%st->r%d == %s, "init_from/address", "%s member %d");' % ("&" if k == "R" else "", j, addr(i), id_, j))
                o.append('    c.count("init-members", %d);' % len(gt))
                o.append("  } else { c.count(\"init-none\"); }")
                o.append("  }")
            o.append('  CHECK(before == snapshot(%s), "init_from/source-changed", "%s");' % (", ".join(addr(i) for i in range(n)), id_))
            o.append('  c.count("inits"); c.distinct(vf::hcomb(%d, s.pattern));' % (n * 4 + variant))
            o.append("}")
            names.append("run_" + id_)
    o.append("}  // namespace")
    o.append("SCENARIO(init_from_%s, %d, %d) {" % (name, 60 * len(names), 1500 * len(names)))
    o.append("  static void (*const fns[])(vf::ctx&) = {%s};" % ", ".join(names))
    o.append("  fns[c.idx %% %d](c);" % len(names))
    o.append("}")
    open("harness/c40_init_%s.cc" % name, "w").write("\n".join(o) + "\n")

gen("a", range(1, 8))
gen("b", range(8, 16))
gen("c", range(16, 24))
gen("d", range(24, 32))
gen("e", range(2, 17), True)
gen("f", range(17, 25), True)
gen("g", range(25, 32), True)
