"""C36: key packets and key objects."""
from .. import terms as tm
from ..terms import const, mk
from .common import Run, SPEC
from .c14 import F, SIZES, key_material, mpi, public, whole

ROLE = {'modulus': 'modulus_n', 'exponent': 'exponent_e', 'prime': 'prime_p',
        'group_order': 'group_order_q', 'group_generator':
        'group_generator_g', 'key_value': 'key_value_y'}
KIND = {5: 'secret key', 6: 'public key', 7: 'secret subkey',
        14: 'public subkey'}
SECRET = {1: ('exponent_d', 'prime_p', 'prime_q',
              'multiplicative_inverse_u'), 2: None, 3: None,
          16: ('exponent_x',), 17: ('exponent_x',), 20: ('exponent_x',)}
SECRET[2] = SECRET[3] = SECRET[1]
SECSIZE = {'exponent_d': 1021, 'prime_p': 512, 'prime_q': 511,
           'multiplicative_inverse_u': 509, 'exponent_x': 158}
CTOR = {1: 'RSA', 2: 'RSA', 3: 'RSA', 16: 'ElGamal', 20: 'ElGamal',
        17: 'DSA'}


def secret_values(algo):
    parts, vals = [], {}
    for n in SECRET[algo]:
        p, x = mpi('sec_' + n, SECSIZE[n])
        parts += p
        vals[n] = x
    return parts, vals


def checksum(parts):
    s = const(0)
    t = tm.bseq(parts)
    for i in range(plen(parts)):
        s = tm.add(s, tm.item(t, const(i)))
    return tm.bits(s, 0, 16)


def plen(parts):
    return int(tm.cval(tm.length(tm.bseq(parts))))


def clear_secret(algo):
    """The unprotected secret part: values and their 16-bit checksum."""
    parts, vals = secret_values(algo)
    return parts + [('be', 2, checksum(parts))], vals


def object_fields(f):
    out = {}
    for n, v in f.items():
        if n == 'creation_time':
            out[n] = mk('dt', v)
        elif n == 'expiration_days':
            if v is const(None):
                continue
            t = f['creation_time']
            out['expiration_time'] = tm.phi(
                tm.cmp_('==', v, const(0)), const(None),
                mk('dt', tm.add(t, tm.scale(v, 86400))))
        else:
            out[ROLE.get(n, n)] = v
    return out


def pub_tuple(algo, f):
    if algo in (1, 2, 3):
        names = ('modulus', 'exponent')
    elif algo == 17:
        names = ('key_value', 'group_generator', 'prime', 'group_order')
    else:
        names = ('prime', 'group_generator', 'key_value')
    return [f[n] for n in names]


def ctor(algo, vals):
    return mk('call', 'Crypto.PublicKey.%s.construct' % CTOR[algo],
              (mk('tuple', *vals),), ())


def primary():
    p, f = public(4, 1, (1024, 17))
    return tm.bseq(whole(6, p)), f


def cases(tier):
    """(type, label, version, algorithm, packet parts, fields)"""
    salt = F('salt', 8)
    for algo in sorted(SIZES):
        for ver in (2, 3, 4):
            if ver < 4 and algo not in (1, 2, 3):
                continue
            for sizes in SIZES[algo]:
                if sizes is not SIZES[algo][0] and tier == 'quick':
                    continue
                pub, f = public(ver, algo, sizes)
                lab = 'v%d,algorithm %d,%s' % (ver, algo, sizes[0])
                for ty in (6, 14, 5, 7):
                    if ty in (7, 14) and ver < 4:
                        continue
                    if ty in (6, 14):
                        yield ty, lab, ver, algo, pub, f, {}
                        continue
                    sec = F('secret', 100)
                    for u, extra, ff in (
                            (254, [('k', bytes([254, 9, 3, 8])), ('c', salt),
                                   ('k', b'\x60'), ('c', F('iv', 16))], {
                                'symmetric_algorithm': const(9)}),
                            (255, [('k', bytes([255, 3, 1, 2])), ('c', salt),
                                   ('c', F('iv', 8))], {
                                'symmetric_algorithm': const(3)}),
                            (9, [('k', bytes([9])), ('c', F('iv', 16))], {
                                'symmetric_algorithm': const(9)}),
                            (0, [('k', b'\0')], {})):
                        if u == 254 and ver < 4:
                            continue
                        yield (ty, lab + ',usage %d' % u, ver, algo,
                               pub + extra + [('c', sec)], f, ff)


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'keys')
    c.rule('roundtrip', 'a key packet turned into a key object and back is '
           'the same octets', 60)
    c.rule('roles', 'each parameter of the key object is the packet '
           'parameter of the same role', 60)
    c.rule('public form', 'the public form of a secret key carries the same '
           'public parameters', 20)
    c.rule('unlocked', 'an unlocked key has each secret value in its role '
           'and is still written with the same octets', 20)
    c.rule('key object', 'the cryptographic key object is built from the '
           'parameters in the order of its algorithm', 20)

    def drive(rule, key, fn, args, want):
        def go():
            a = Run(c, sp, fn, args)
            c.same(rule, key, a.value, want, a.where)
        c.guard(rule, key, go)

    prim, pf = primary()
    NEW, OLD = const(1), const(2)
    for ty, lab, ver, algo, parts, f, extra in cases(c.tier):
        key = '%s,%s' % (KIND[ty], lab)
        w = tm.bseq(whole(ty, parts))
        o = tm.bseq(whole(ty, parts, False))
        drive('roundtrip', key, 'roundtrip', [w, prim], w)
        drive('roundtrip', key + ',old format', 'roundtrip', [o, prim], o)
        drive('roundtrip', key + ',new to old', 'roundtrip_as',
              [w, prim, OLD], o)
        of = object_fields(f)
        of.update(extra)
        names = sorted(of)
        drive('roles', key, 'fields', [w, prim, mk(
            'tuple', *[const(n) for n in names])], mk(
                'tuple', *[of[n] for n in names]))
        if ty in (5, 7):
            drive('roles', key + ',encrypted part', 'octets',
                  [w, prim, const('encrypted_portion')], F('secret', 100))
            if algo != 20 or ver == 4:
                pub = public(ver, algo, [s for s in SIZES[algo] if str(
                    s[0]) == lab.split(',')[2]][0])[0]
                pt = {5: 6, 7: 14}[ty]
                drive('public form', key, 'public_octets', [w, prim],
                      tm.bseq(whole(pt, pub)))
                pn = sorted(object_fields(f))
                drive('public form', key + ',roles', 'public_fields', [
                    w, prim, mk('tuple', *[const(n) for n in pn])], mk(
                        'tuple', *[object_fields(f)[n] for n in pn]))
        else:
            drive('key object', key, 'key_obj', [w, prim],
                  ctor(algo, pub_tuple(algo, f)))
    for algo in sorted(SIZES):
        for ver in (3, 4):
            if ver < 4 and algo not in (1, 2, 3):
                continue
            pub, f = public(ver, algo, SIZES[algo][0])
            sec, vals = clear_secret(algo)
            for ty in (5, 7):
                if ty == 7 and ver < 4:
                    continue
                key = '%s,v%d,algorithm %d' % (KIND[ty], ver, algo)
                w = tm.bseq(whole(ty, pub + [('k', b'\0')] + sec))
                drive('unlocked', key + ',roundtrip', 'unlocked_roundtrip',
                      [w, prim], w)
                want = dict(object_fields(f))
                want.update(vals)
                names = sorted(want)
                drive('unlocked', key, 'unlocked_fields', [w, prim, mk(
                    'tuple', *[const(n) for n in names])], mk(
                        'tuple', *[want[n] for n in names]))
                drive('key object', key, 'unlocked_key_obj', [w, prim],
                      ctor(algo, pub_tuple(algo, f) +
                           [vals[n] for n in SECRET[algo]]))
                drive('key object', key + ',locked', 'key_obj', [w, prim],
                      ctor(algo, pub_tuple(algo, f)))
    c.assumptions.append('the local offset from UTC is the same at all '
                         'times (daylight saving changes are not modelled)')
