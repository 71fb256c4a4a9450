"""C35: fingerprints and key IDs, in every form of a key."""
from .. import terms as tm
from ..terms import const
from .c14 import SIZES, public, whole
from .c36 import (KIND, cases, clear_secret, primary)
from .common import Run, SPEC


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'keys')
    c.rule('packet', 'fingerprint and key ID of a key packet', 25)
    c.rule('object', 'fingerprint and key ID of a key object', 25)
    c.rule('public form', 'the public form of a secret key has the same '
           'fingerprint and key ID', 10)
    c.rule('unlocked', 'unlocking does not change fingerprint and key ID', 6)

    def ref(ver, pub, f):
        if ver >= 4:
            return Run(c, sp, 'ref_v4', [tm.bseq(pub)]).value
        return Run(c, sp, 'ref_v3', [be(f['modulus']), be(f['exponent'])]
                   ).value

    def be(x):
        n = (x.args[1] + 7) // 8
        return tm.bseq([('be', n, x)])

    def drive(rule, key, fn, args, want):
        def go():
            a = Run(c, sp, fn, args)
            c.same(rule, key, a.value, want(), a.where)
        c.guard(rule, key, go)

    prim, _ = primary()
    for ty, lab, ver, algo, parts, f, extra in cases(c.tier):
        if lab.split(',')[2] in ('1', '9'):
            continue
        pub = public(ver, algo, [s for s in SIZES[algo] if str(s[0]) ==
                                 lab.split(',')[2]][0])[0]
        key = '%s,%s' % (KIND[ty], lab)
        w = tm.bseq(whole(ty, parts))

        def want():
            return ref(ver, pub, f)
        drive('packet', key, 'packet_id', [w], want)
        drive('object', key, 'object_id', [w, prim], want)
        if ty in (5, 7):
            drive('public form', key, 'public_id', [w, prim], want)
    for algo in sorted(SIZES):
        for ver in (3, 4):
            if ver < 4 and algo not in (1, 2, 3):
                continue
            pub, f = public(ver, algo, SIZES[algo][0])
            sec, vals = clear_secret(algo)
            for ty in (5, 7):
                if ty == 7 and ver < 4:
                    continue
                key = '%s,v%d,algorithm %d' % (KIND[ty], ver, algo)
                w = tm.bseq(whole(ty, pub + [('k', b'\0')] + sec))

                def want():
                    return ref(ver, pub, f)
                drive('unlocked', key, 'unlocked_id', [w, prim], want)
    c.assumptions.append('v3 keys have a modulus of at least 64 bits')
