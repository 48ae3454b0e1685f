"""The reference definitions (gsa/spec) against the examples printed in the standards.
Not part of any check: it runs the definitions, never the package."""
import os

here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'gsa', 'spec')
x = bytes.fromhex
bad = []


def load(name):
    src = ''
    if name in ('kuznechik', 'magma', 'streebog'):
        src = open(os.path.join(here, 'tables.py')).read() + '\n'
    ns = {}
    exec(compile(src + open(os.path.join(here, name + '.py')).read(), name, 'exec'), ns)
    return ns


def same(what, got, want):
    got = bytes(got)
    if got != x(want.replace(' ', '')):
        bad.append(what)
        print('DIFFERS', what, got.hex())


K, M, S, MO, KE = (load(n) for n in ('kuznechik', 'magma', 'streebog', 'modes', 'keyed'))
kk = K['round_keys'](x('8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef'))
mk = M['round_keys'](x('ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff'))
# GOST R 34.12-2015, A.1 and A.2
same('kuznechik', K['encrypt'](kk, x('1122334455667700ffeeddccbbaa9988')), '7f679d90bebc24305a468d42b9d4edcd')
same('kuznechik inverse', K['decrypt'](kk, x('7f679d90bebc24305a468d42b9d4edcd')), '1122334455667700ffeeddccbbaa9988')
same('magma', M['encrypt'](mk, x('fedcba9876543210')), '4ee901e5c2d8ca3d')
same('magma inverse', M['decrypt'](mk, x('4ee901e5c2d8ca3d')), 'fedcba9876543210')
# GOST R 34.11-2012, A.1
m1 = b'012345678901234567890123456789012345678901234567890123456789012'
same('streebog512', S['digest'](m1, 512), '1b54d01a4af5b9d5cc3d86d68d285462b19abc2475222f35c085122be4ba1ffa'
     '00ad30f8767b3a82384c6574f024c311e2a481332b08ef7f41797891c1646f48')
same('streebog256', S['digest'](m1, 256), '9d151eefd8590b89daa6ba6cb74af9275dd051026bb149a452fd84e5e57b5500')
m2 = x('d1e520e2e5f2f0e82c20d1f2f0e8e1eee6e820e2edf3f6e82c20e2e5fef2fa20f120eceef0ff20f1f2f0e5ebe0ece820ede020f5f0e0e1f0fbff20efebfaeafb20c8e3eef0e5e2fb')
same('streebog512, two blocks', S['digest'](m2, 512), '1e88e62226bfca6f9994f1f2d51569e0daf8475a3b0fe61a5300eee46d961376'
     '035fe83549ada2b8620fcd7c496ce5b33f0cb9dddc2b6460143b03dabac9fb28')
same('streebog256, two blocks', S['digest'](m2, 256), '9dd2fe4e90409e5da87f53976d7405b0c0cac628fc669a741d50063c557e8f50')
# GOST R 34.13-2015, A.1
E, D = (lambda b: K['encrypt'](kk, b)), (lambda b: K['decrypt'](kk, b))
pt = x('1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011')
iv2 = x('1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819')
same('ecb', MO['ecb'](E, pt, 16), '7f679d90bebc24305a468d42b9d4edcdb429912c6e0032f9285452d76718d08bf0ca33549d247ceef3f5a5313bd4b157'
     'd0b09ccde830b9eb3a02c4c5aa8ada98')
cbc = '689972d4a085fa4d90e52e3d6d7dcc272826e661b478eca6af1e8e448d5ea5acfe7babf1e91999e85640e8b0f49d90d0167688065a895c631a2d9a1560b63970'
cfb = '81800a59b1842b24ff1f795e897abd95ed5b47a7048cfab48fb521369d9326bf79f2a8eb5cc68d38842d264e97a238b54ffebecd4e922de6c75bd9dd44fbf4d1'
same('cbc', MO['cbc_enc'](E, D, iv2, pt, 16)[0], cbc)
same('cbc inverse', MO['cbc_dec'](E, D, iv2, x(cbc), 16)[0], pt.hex())
same('cfb', MO['cfb_enc'](E, D, iv2, pt, 16)[0], cfb)
same('cfb inverse', MO['cfb_dec'](E, D, iv2, x(cfb), 16)[0], pt.hex())
same('ofb', MO['ofb'](E, D, iv2, pt, 16)[0], '81800a59b1842b24ff1f795e897abd95ed5b47a7048cfab48fb521369d9326bf'
     '66a257ac3ca0b8b1c80fe7fc10288a13203ebbc066138660a0292243f6903150')
same('ctr', MO['ctr'](E, D, x('1234567890abcef0') + bytes(8), pt, 16)[0], 'f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee4'
     'a5eae88be6356ed3d5e877f13564a3a5cb91fab1f20cbab6d1c6d15820bdba73')
same('mac', MO['mac'](E, pt, 16)[:8], '336f4d296059fbe3')
# A.2
E8 = lambda b: M['encrypt'](mk, b)
pt8 = x('92def06b3c130a59db54c704f8189d204a98fb2e67a8024c8912409b17b57e41')
same('magma ecb', MO['ecb'](E8, pt8, 8), '2b073f0494f372a0de70e715d3556e4811d8d9e9eacfbc1e7c68260996c67efb')
same('magma mac', MO['mac'](E8, pt8, 8)[:4], '154e7210')
# R 50.1.113-2016 and R 50.1.111-2016
key, msg = bytes(range(32)), x('0126bdb87800af214341456563780100')
H = {n: (lambda m, n=n: S['digest'](m, n)) for n in (256, 512)}
same('hmac256', KE['hmac'](H[256], key, msg), 'a1aa5f7de402d7b3d323f2991c8d4534013137010a83754fd0af6d7cd4922ed9')
same('hmac512', KE['hmac'](H[512], key, msg), 'a59bab22ecae19c65fbde6e5f4e9f5d8549d31f037f9df9b905500e171923a77'
     '3d5f1530f2ed7e964cb2eedc29e9ad2f3afe93b2814f79f5000ffc0366c251e6')
same('pbkdf, 1', KE['pbkdf'](H[512], b'password', b'salt', 1, 64), '64770af7f748c3b1c9ac831dbcfd85c26111b30a8a657ddc3056b80ca73e040d'
     '2854fd36811f6d825cc4ab66ec0a68a490a9e5cf5156b3a2b7eecddbf9a16b47')
same('pbkdf, 2', KE['pbkdf'](H[512], b'password', b'salt', 2, 64), '5a585bafdfbb6e8830d6d68aa3b43ac00d2e4aebce01c9b31c2caed56f0236d4'
     'd34b2b8fbd2c4e89d54d46f50e47d45bbac301571743119e8d3c42ba66d348de')
# GOST R 34.10-2012, A.1
SG = load('sign')
p = 0x8000000000000000000000000000000000000000000000000000000000000431
q = 0x8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3
k = 0x77105C9B20BCD3122823C8CF6FCC7B956DE33814E95B7FE64FED924594DCEAB3
d = 0x7A929ADE789BB9BE10ED359DD39A72C11B60961F49397EEE1D19CE9891EC3B28
e = 0x2DFBC1B372D89A1188C09C52E0EEC61FCE52032AB1022E8E67ECE6672B043EE5
xc = 0x41AA28D2F1AB148280CD9ED56FEDA41974053554A42767B83AD043FD39DC0493
same('signature', SG['signature'](xc, d.to_bytes(32, 'big'), e.to_bytes(32, 'big'), k, q, 32),
     '41aa28d2f1ab148280cd9ed56feda41974053554a42767b83ad043fd39dc0493'
     '01456c64ba4642a1653c235a98a60249bcd6d3f746b631df928014f6c5bf9c40')
print('%d differences' % len(bad))
raise SystemExit(bool(bad))
