"""Formats of real protocols (DNS, PNG, TLS, MQTT, IPv4, NBT, ...) as specifications: every short input, everything near a valid message (adjacent bytes arbitrary
anywhere, cut short anywhere), and every small value."""
from tmpl import *


def make(tier):
    p = Plan('P04', tier, IDS)
    q = tier == 'quick'
    u8, u16, u32, u64 = Sc('u8'), Sc('u16'), Sc('u32'), Sc('u64')
    le16, le32, le64 = Sc('u16le'), Sc('u32le'), Sc('u64le')
    i8, i16, i32, i64 = Sc('i8'), Sc('i16'), Sc('i32'), Sc('i64')

    def eq(a, v):
        return Bin('==', F(a), v if isinstance(v, E) else I(v))

    def fmt(name, decls, T, base, n, lo=None, kk=1, dc=(20, 21), ec=(22,), consts=(), width=2, d=True, more=(), trip=True):
        sp = p.spec(Spec('f_' + name, decls, consts=consts))
        wall = 20 if q else 150
        dec(p, sp, T, n, lo=max(0, n - 3) if lo is None else lo, covers=dc, wall=wall)
        near(p, sp, T, base, width=width, wall=wall)
        if not q:
            near(p, sp, T, base, width=4, wall=wall, name='near4_%s' % name)
        enc(p, sp, T, kk, covers=ec, decode=d, trip=trip, wall=wall)
        for t, m in more:
            dec(p, sp, t, m, lo=max(0, m - 2), wall=wall)
            enc(p, sp, t, kk, wall=wall)

    def pascal(s):
        return bytes([len(s)]) + s
    # DNS
    fl = D('DnsFlags', Bits('u16', [('qr', ('0x8000', 0x8000)), ('aa', ('0x0400', 0x400)), ('tc', ('0x0200', 0x200)), ('rd', ('0x0100', 0x100)), ('ra', ('0x0080', 0x80)), ('rest', ('0x787f', 0x787f))]))
    lab = D('Label', Cont([Fd('n', u8, calc=Cast(Len('text'), 'u8')), Fd('text', Arr(u8, F('n')))]))
    qu = D('Question', Cont([Fd('name', Arr(Ref(lab), b'\0')), Fd('qtype', u16), Fd('qclass', u16)]))
    rr = D('Record', Cont([Fd('name', Arr(Ref(lab), b'\0')), Fd('rtype', u16), Fd('rclass', u16), Fd('ttl', u32), Fd('rdlen', u16, calc=Cast(Len('rdata'), 'u16')), Fd('rdata', Arr(u8, F('rdlen')))]))
    ms = D('Message', Cont([Fd('id', u16), Fd('flags', Ref(fl)), Fd('qd', u16, calc=Cast(Len('questions'), 'u16')), Fd('an', u16, calc=Cast(Len('answers'), 'u16')), Fd('ns', u16), Fd('ar', u16),
                            Fd('questions', Arr(Ref(qu), F('qd'))), Fd('answers', Arr(Ref(rr), F('an')))]))
    host = pascal(b'www') + pascal(b'abc') + b'\0'
    fmt('dns', [fl, lab, qu, rr, ms], ms, b'\x12\x34\x81\x80\0\1\0\1\0\0\0\0' + host + b'\0\1\0\1' + host + b'\0\1\0\1\0\0\x0e\x10\0\4\x7f\0\0\1', 17, more=[(qu, 8), (rr, 13)])
    # PNG
    ch = D('Chunk', Cont([Fd('n', u32, calc=Cast(Len('data'), 'u32')), Fd('tag', Arr(u8, I(4))), Fd('data', Arr(u8, F('n'))), Fd('crc', u32)]))
    png = D('Png', Cont([Fd('magic', u64), Fd('chunks', Arr(Ref(ch), None))]))
    fmt('png', [ch, png], png, b'\x89PNG\r\n\x1a\n' + b'\0\0\0\x0dIHDR' + bytes(range(13)) + b'\1\2\3\4' + b'\0\0\0\2IDATab\5\6\7\7' + b'\0\0\0\0IEND\xae\x42\x60\x82', 21, ec=(22, 23))
    # TLS records
    ct = D('ContentType', Enum('u8', [('change_cipher_spec', 20), ('alert', None), ('handshake', None), ('application_data', None), ('unknown', 'default')]))
    al = D('Alert', Cont([Fd('level', u8), Fd('description', u8)]))
    hs = D('Handshake', Cont([Fd('kind', u8), Fd('n_hi', u8), Fd('n_lo', u16), Fd('body', Arr(u8, Bin('+', Bin('*', Cast(F('n_hi'), 'u64'), I(65536)), Cast(F('n_lo'), 'u64'))))]))
    fr = D('Fragment', Tag([Fd('ccs', u8, cond=eq('t', EnumAcc(ct, 'change_cipher_spec'))), Fd('alert', Ref(al), cond=eq('t', EnumAcc(ct, 'alert'))), Fd('handshakes', Arr(Ref(hs), None), cond=eq('t', EnumAcc(ct, 'handshake'))),
                            Fd('data', Arr(u8, None))], length=F('n')), args=[('t', Ref(ct), None), ('n', u16, None)])
    rec = D('Record', Cont([Fd('kind', Ref(ct)), Fd('major', u8), Fd('minor', u8), Fd('n', u16), Fd('fragment', Ref(fr, F('kind'), F('n')))]))
    fmt('tls', [ct, al, hs, fr, rec], rec, b'\x16\3\3\0\x0c' + b'\1\0\0\3abc' + b'\2\0\0\1d', 8, ec=(22, 23))
    # IPv4
    ip = D('Ipv4', Cont([Fd('ver_ihl', u8), Fd('tos', u8), Fd('total', u16), Fd('id', u16), Fd('frag', u16), Fd('ttl', u8), Fd('proto', u8), Fd('sum', u16), Fd('src', Arr(u8, I(4))), Fd('dst', Arr(u8, I(4))),
                         Fd('options', Arr(u32, Cast(Bin('-', Bin('&', F('ver_ihl'), I(15)), I(5)), 'u64')), cond=Bin('>', Bin('&', F('ver_ihl'), I(15)), I(5)))]))
    fmt('ip', [ip], ip, b'\x46\0\0\x18' + bytes(range(1, 9)) + b'\x0a\0\0\1\x0a\0\0\2' + b'\x94\4\0\0', 25, lo=19, ec=(22, 23), trip=True)
    # MQTT
    ty = D('Connect', Cont([Fd('proto_n', u16, calc=Cast(Len('proto'), 'u16')), Fd('proto', Utf8(F('proto_n'))), Fd('level', u8), Fd('flags', u8), Fd('keep_alive', u16), Fd('id_n', u16, calc=Cast(Len('id'), 'u16')), Fd('id', Utf8(F('id_n'))),
                            Fd('user_n', u16, cond=Bin('!=', Bin('&', F('flags'), I(128)), I(0))), Fd('user', Utf8(Elvis(F('user_n'), I(0))), cond=Bin('!=', Bin('&', F('flags'), I(128)), I(0)))]))
    pk = D('Packet', Tag([Fd('connect', Ref(ty), cond=Bin('==', Bin('>>', F('h'), I(4)), I(1))), Fd('ping', Cont([Pad(I(0))]), cond=Bin('==', Bin('>>', F('h'), I(4)), I(12))), Fd('other', Arr(u8, None))], length=F('n')), args=[('h', u8, None), ('n', u8, None)])
    mq = D('Mqtt', Cont([Fd('header', u8), Fd('n', u8), Fd('packet', Ref(pk, F('header'), F('n')))]))
    fmt('mqtt', [ty, pk, mq], mq, b'\x10\x13\0\4MQTT\4\x80\0\x3c\0\2ab\0\3usr', 6, ec=(22, 23))
    # SOCKS5
    at = D('Atyp', Enum('u8', [('v4', 1), ('domain', 3), ('v6', None)]))
    ad = D('Addr', Tag([Fd('v4', Arr(u8, I(4)), cond=eq('t', EnumAcc(at, 'v4'))), Fd('domain', Cont([Fd('n', u8, calc=Cast(Len('name'), 'u8')), Fd('name', Utf8(F('n')))]), cond=eq('t', EnumAcc(at, 'domain'))), Fd('v6', Sc('u128'), cond=eq('t', EnumAcc(at, 'v6')))]), args=[('t', Ref(at), None)])
    so = D('Request', Cont([Fd('ver', u8), Fd('cmd', u8), Pad(I(1)), Fd('atyp', Ref(at)), Fd('addr', Ref(ad, F('atyp'))), Fd('port', u16)]))
    fmt('socks', [at, ad, so], so, b'\5\1\0\3' + pascal(b'example.org') + b'\x01\xbb', 11, ec=(22, 23))
    # NBT
    tg = D('Tag', Enum('u8', [('End', 0), ('Byte', None), ('Short', None), ('Int', None), ('Long', None), ('Float', None), ('Double', None), ('ByteArray', None), ('String', None), ('List', None), ('Compound', None), ('IntArray', None), ('LongArray', None)]))
    ns = D('NbtString', Cont([Fd('n', u16, calc=Cast(Len('value'), 'u16')), Fd('value', Utf8(F('n')))]))
    ba = D('ByteArray', Cont([Fd('n', u32, calc=Cast(Len('value'), 'u32')), Fd('value', Arr(i8, F('n')))]))
    ia = D('IntArray', Cont([Fd('n', u32, calc=Cast(Len('value'), 'u32')), Fd('value', Arr(i32, F('n')))]))
    la = D('LongArray', Cont([Fd('n', u32, calc=Cast(Len('value'), 'u32')), Fd('value', Arr(i64, F('n')))]))
    pl = D('Payload', Tag([]), args=[('t', Ref(tg), None)])
    it = D('Item', Cont([Fd('kind', Ref(tg)), Fd('name', Ref(ns)), Fd('payload', Rec(pl, F('kind')))]))
    co = D('Compound', Cont([Fd('items', Arr(Ref(it), b'\0'))]))
    li = D('List', Cont([Fd('kind', Ref(tg)), Fd('n', u32), Fd('items', Arr(Rec(pl, F('kind')), F('n')))]))
    for nm, t in [('Byte', i8), ('Short', i16), ('Int', i32), ('Long', i64), ('Float', Fl('f32')), ('Double', Fl('f64')), ('ByteArray', Ref(ba)), ('String', Ref(ns)), ('List', Ref(li)), ('Compound', Rec(co)), ('IntArray', Ref(ia)), ('LongArray', Ref(la))]:
        pl.ty.variants.append(Fd(nm, t, cond=eq('t', EnumAcc(tg, nm))))
    fmt('nbt', [tg, ns, ba, ia, la, pl, it, co, li], co, b'\x01\0\1a\7' + b'\x08\0\1b\0\2hi' + b'\x0a\0\1c\x02\0\1d\0\1\0' + b'\x09\0\1e\3\0\0\0\2\0\0\0\1\0\0\0\2' + b'\x0b\0\0\0\0\0\1\0\0\0\5' + b'\0', 7, lo=0, ec=(22, 23), trip=False)
    # RIFF
    fm = D('Fmt', Cont([Fd('format', le16), Fd('channels', le16), Fd('rate', le32), Fd('byte_rate', le32), Fd('align', le16), Fd('bits', le16)]))
    su = D('Sub', Cont([Fd('id', u32), Fd('n', le32), Fd('body', Cont([Fd('fmt', Ref(fm), cond=eq('id', 0x666d7420)), Fd('data', Arr(Sc('i16le'), None), cond=Bin('!=', F('id'), I(0x666d7420)))], length=F('n')))]))
    ri = D('Riff', Cont([Fd('magic', u32), Fd('n', le32), Fd('body', Cont([Fd('kind', u32), Fd('chunks', Arr(Ref(su), None))], length=F('n')))]))
    fmt('riff', [fm, su, ri], ri, b'RIFF\x2e\0\0\0WAVE' + b'fmt \x10\0\0\0\1\0\1\0\x44\xac\0\0\x88\x58\1\0\2\0\x10\0' + b'data\6\0\0\0\1\0\xff\xff\0\x80' + b'\x00\x00\x00\x00'[:0], 14, ec=(22, 23))
    # BitTorrent messages
    bt = D('Body', Tag([Fd('have', u32, cond=eq('id', 4)), Fd('have_bits', Arr(u8, None), cond=eq('id', 5)), Fd('request', Cont([Fd('index', u32), Fd('begin', u32), Fd('length', u32)]), cond=Bin('||', eq('id', 6), eq('id', 8))),
                        Fd('piece', Cont([Fd('pindex', u32), Fd('pbegin', u32), Fd('block', Arr(u8, None))]), cond=eq('id', 7)), Fd('flag', Cont([Pad(I(0))]), cond=Bin('<', F('id'), I(4)))]), args=[('id', u8, None)])
    be = D('Peer', Cont([Fd('n', u32), Fd('rest', Cont([Fd('id', u8), Fd('body', Ref(bt, F('id')))], length=F('n')), cond=Bin('>', F('n'), I(0)))]))
    ses = D('Session', Cont([Fd('pn', u8, calc=Cast(Len('proto'), 'u8')), Fd('proto', Utf8(F('pn'))), Fd('reserved', u64), Fd('messages', Arr(Ref(be), None))]))
    fmt('torrent', [bt, be, ses], ses, pascal(b'BT') + bytes(8) + b'\0\0\0\0' + b'\0\0\0\5\4\0\0\0\7' + b'\0\0\0\3\5\xf0\x0f' + b'\0\0\0\x0a\7\0\0\0\1\0\0\0\2z' + b'\0\0\0\1\2', 14, ec=(22, 23), more=[(be, 9)])
    # ZIP local header
    zf = D('ZipFlags', Bits('u16le', [('encrypted', 1), ('opt1', None), ('opt2', None), ('descriptor', None), ('utf8', ('0x0800', 0x800)), ('others', ('0xf7f0', 0xf7f0))]))
    zp = D('Local', Cont([Fd('sig', u32), Fd('version', le16), Fd('flags', Ref(zf)), Fd('method', le16), Fd('time', le16), Fd('date', le16), Fd('crc', le32), Fd('csize', le32), Fd('usize', le32), Fd('name_n', le16, calc=Cast(Len('name'), 'u16')),
                          Fd('extra_n', le16, calc=Cast(Len('extra'), 'u16')), Fd('name', Utf8(F('name_n'))), Fd('extra', Arr(u8, F('extra_n'))), Fd('data', Arr(u8, F('csize'))), Fd('descr', Cont([Fd('dcrc', le32), Fd('dn', le32)]), cond=Mem('flags', 'descriptor'))]))
    fmt('zip', [zf, zp], zp, b'PK\3\4\x14\0\x08\x08\0\0' + bytes(range(4)) + b'\1\2\3\4\3\0\0\0\3\0\0\0\5\0\2\0a.txtxyabc\1\2\3\4\3\0\0\0', 33, lo=29, ec=(22, 23))
    # Git-like tree, tar-like strings, syslog lines
    ge = D('Entry', Cont([Fd('mode', Arr(u8, b' ')), Fd('name', Utf8()), Fd('hash', Arr(u8, I(2)))]))
    gt = D('Tree', Arr(Ref(ge), None))
    fmt('git', [ge, gt], gt, b'100644 a.c\0\1\2' + b'40000 d\0\3\4', 6, ec=(22,))
    # Kafka-like: nullable text and arrays
    ks = D('Nullable', Cont([Fd('n', i16), Fd('s', Utf8(Cast(F('n'), 'u64')), cond=Bin('>=', F('n'), I(0)))]))
    kr = D('Topic', Cont([Fd('name', Ref(ks)), Fd('pn', i32), Fd('parts', Arr(u32, Cast(F('pn'), 'u64')), cond=Bin('>=', F('pn'), I(0)))]))
    kk = D('Kafka', Cont([Fd('api', u16), Fd('ver', u16), Fd('corr', u32), Fd('client', Ref(ks)), Fd('tn', u32, calc=Cast(Len('topics'), 'u32')), Fd('topics', Arr(Ref(kr), F('tn'))), Fd('flex', u8, cond=Bin('>=', F('ver'), I(9)))]))
    fmt('kafka', [ks, kr, kk], kk, b'\0\3\0\x09\0\0\0\7\0\3cli\0\0\0\2\xff\xff\xff\xff\xff\xff\0\2tp\0\0\0\2\0\0\0\1\0\0\0\2\1', 15, ec=(22, 23), more=[(kr, 10)])
    # ELF-like: width and byte order by arguments
    eh = D('Ident', Cont([Fd('magic', u32), Fd('class', u8), Fd('data', u8), Fd('version', u8), Fd('abi', u8), Pad(I(8))]))
    ea = D('Word', Tag([Fd('le32', le32, cond=Bin('&&', Bin('==', F('c'), I(1)), Bin('==', F('d'), I(1)))), Fd('be32', u32, cond=Bin('==', F('c'), I(1))), Fd('le64', le64, cond=Bin('==', F('d'), I(1))), Fd('be64', u64)]), args=[('c', u8, None), ('d', u8, I(1))])
    ee = D('Elf', Cont([Fd('id', Ref(eh)), Fd('entry', Ref(ea, I(2), I(2))), Fd('phoff', Ref(ea, I(1)))]))
    fmt('elf', [eh, ea, ee], ee, b'\x7fELF\2\1\1\0' + bytes(8) + b'\0\0\0\0\0\1\2\3' + b'\4\3\2\1', 29, lo=27, ec=(22, 23))
    p.bounds = ['%d formats; every byte string up to 6-33 bytes (the last sizes), messages of 20-70 bytes with any %d adjacent bytes arbitrary or cut short anywhere; values with lists of at most 1 element' % (len(p.specs) if hasattr(p, 'specs') else 14, 2 if q else 4)]
    return p
