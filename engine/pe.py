"""PE loading, symbol table and disassembly of a Windows harness executable (linked by winld.py at a fixed base)."""
import struct, subprocess, re, bisect
from elf import Elf


class Pe(Elf):
    win = True

    def __init__(self, path):
        self.path = path
        d = self.d = open(path, 'rb').read()
        pe = struct.unpack_from('<I', d, 0x3c)[0]
        assert d[pe:pe + 4] == b'PE\0\0'
        mach, nsec, _, symoff, nsym, optsz, _ = struct.unpack_from('<HHIIIHH', d, pe + 4)
        self.is64 = mach == 0x8664
        self.bits = 64 if self.is64 else 32
        self.machine = 62 if self.is64 else 3
        self.etype = 2
        opt = pe + 24
        self.base = 0            # addresses in symbols and disassembly are absolute already
        self.image = struct.unpack_from('<Q' if self.is64 else '<I', d, opt + (24 if self.is64 else 28))[0]
        self.dirs = [struct.unpack_from('<II', d, opt + (112 if self.is64 else 96) + 8 * i) for i in range(16)]
        self.sec, self.segs, secs = {}, [], []
        self.tls = None
        for i in range(nsec):
            o = opt + optsz + 40 * i
            name = d[o:o + 8].rstrip(b'\0').decode('latin1')
            vsz, va, rsz, roff = struct.unpack_from('<IIII', d, o + 8)
            fl = struct.unpack_from('<I', d, o + 36)[0]
            a = self.image + va
            b = bytearray(d[roff:roff + min(rsz, vsz)])
            b += bytearray(vsz - len(b))
            if name == '.tls':
                self.tlsinit = bytes(b)
            self.sec[name] = dict(addr=a, size=vsz, t=1, fl=fl)
            secs.append((a, name))
            if vsz:
                self.segs.append([a, b, bool(fl & 0x80000000), bool(fl & 0x20000000)])
        # headers, so that the image base is readable
        self.segs.insert(0, [self.image, bytearray(d[:0x400]), False, False])
        self.segs.sort()
        self.imports, self.sym, self.funcs = {}, {}, []
        st = symoff + 18 * nsym
        i = 0
        pre = '' if self.is64 else '_'
        while i < nsym:
            o = symoff + 18 * i
            nm = d[o:o + 8]
            if nm[:4] == b'\0\0\0\0':
                nm = d[st + struct.unpack_from('<I', nm, 4)[0]:]
                nm = nm[:nm.index(b'\0')]
            else:
                nm = nm.rstrip(b'\0')
            nm = nm.decode('latin1')
            val, sec, ty, cls, aux = struct.unpack_from('<IhHBB', d, o + 8)
            i += 1 + aux
            if sec <= 0 or sec > nsec:
                continue
            a = secs[sec - 1][0] + val
            if pre and nm.startswith('_'):
                nm = re.sub(r'@\d+$', '', nm[1:])
            if secs[sec - 1][1] == '.vstub':
                nm = re.sub(r'^_?vimp_+imp_', '', nm)
                nm = re.sub(r'@\d+$', '', nm) if pre else nm
                self.imports[nm.lstrip('_') if nm.startswith('_imp_') else nm] = a
                continue
            self.sym.setdefault(nm, a)
            if secs[sec - 1][1] == '.text':
                self.funcs.append((a, 0, nm))
        self.funcs.sort()
        self.fstarts = [f[0] for f in self.funcs]
        self.extern_base = 0x7ff700000000 if self.is64 else 0x77000000
        rva, size = self.dirs[1]
        W = 8 if self.is64 else 4
        a = self.image + rva
        while rva and self.rd(a + 12, 4):
            look, iat = self.rd(a, 4) or self.rd(a + 16, 4), self.rd(a + 16, 4)
            k = 0
            while True:
                e = self.rd(self.image + look + k * W, W)
                if not e:
                    break
                if e >> (8 * W - 1):
                    nm = 'ordinal%d' % (e & 0xffff)
                else:
                    nm = self.cstr(self.image + (e & 0x7fffffff) + 2)
                self.wr(self.image + iat + k * W, self.extern_addr(nm), W)
                k += 1
            a += 20
        self.disasm()

    def cstr(self, a):
        s = b''
        while True:
            c = self.rdb(a, 1)
            if c == b'\0':
                return s.decode('latin1')
            s += c
            a += 1
