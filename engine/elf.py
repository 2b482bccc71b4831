"""ELF loading, symbol table and disassembly text of a harness executable."""
import os, struct, subprocess, re

INS = re.compile(r'\s*([0-9a-f]+):\s((?:[0-9a-f]{2,8} ?)+)\s*\t(.*)$')

class Elf:
    def __init__(self, path, base=None):
        self.path = path
        d = self.d = open(path, 'rb').read()
        assert d[:4] == b'\x7fELF'
        self.is64 = d[4] == 2
        self.bits = 64 if self.is64 else 32
        self.machine = struct.unpack_from('<H', d, 18)[0]
        if self.is64:
            (self.etype, _, _, self.entry, phoff, shoff, _, _, phes, phn, shes, shn, shstr) = \
                struct.unpack_from('<HHIQQQIHHHHHH', d, 16)
        else:
            (self.etype, _, _, self.entry, phoff, shoff, _, _, phes, phn, shes, shn, shstr) = \
                struct.unpack_from('<HHIIIIIHHHHHH', d, 16)
        if base is None:
            base = (0x555555554000 if self.is64 else 0x56555000) if self.etype == 3 else 0
        self.base = base
        self.ph = []
        for i in range(phn):
            o = phoff + i * phes
            if self.is64:
                t, fl, off, va, _, fsz, msz, al = struct.unpack_from('<IIQQQQQQ', d, o)
            else:
                t, off, va, _, fsz, msz, fl, al = struct.unpack_from('<IIIIIIII', d, o)
            self.ph.append((t, fl, off, va, fsz, msz, al))
        self.sh = []
        for i in range(shn):
            o = shoff + i * shes
            if self.is64:
                n, t, fl, ad, off, sz, ln, inf, al, es = struct.unpack_from('<IIQQQQIIQQ', d, o)
            else:
                n, t, fl, ad, off, sz, ln, inf, al, es = struct.unpack_from('<IIIIIIIIII', d, o)
            self.sh.append(dict(n=n, t=t, fl=fl, addr=ad, off=off, size=sz, link=ln, info=inf, es=es))
        so = self.sh[shstr]['off']
        for s in self.sh:
            s['name'] = self._str(so + s['n'])
        self.sec = {s['name']: s for s in self.sh}
        self.tls = None
        for p in self.ph:
            if p[0] == 7:
                self.tls = p
        self.imports = {}    # name -> fake address
        self.load()
        self.symbols()
        self.disasm()

    def _str(self, o):
        e = self.d.index(b'\0', o)
        return self.d[o:e].decode('latin1')

    def symtab(self, name):
        s = self.sec.get(name)
        out = []
        if not s:
            return out
        st = self.sh[s['link']]['off']
        n = s['size'] // s['es']
        for i in range(n):
            o = s['off'] + i * s['es']
            if self.is64:
                nm, info, oth, shndx, val, sz = struct.unpack_from('<IBBHQQ', self.d, o)
            else:
                nm, val, sz, info, oth, shndx = struct.unpack_from('<IIIBBH', self.d, o)
            out.append((self._str(st + nm), val, sz, info, shndx))
        return out

    def symbols(self):
        self.sym = {}
        self.funcs = []
        for nm, val, sz, info, shndx in self.symtab('.symtab'):
            if shndx == 0 or not nm:
                continue
            if info & 15 in (0, 1, 2):
                self.sym.setdefault(nm, val + self.base)
                if shndx == 0xfff1 and self.machine not in (3, 62) and 0x8000 <= val < 0x10000:
                    self.imports[nm] = val
            if info & 15 == 2 or (info & 15 == 0 and shndx < 0xff00 and self.sh[shndx]['name'] == '.text'):
                self.funcs.append((val + self.base, sz, nm))
        self.funcs.sort()
        self.fstarts = [f[0] for f in self.funcs]

    def func_at(self, a):
        import bisect
        i = bisect.bisect_right(self.fstarts, a) - 1
        if i < 0:
            return '?'
        return self.funcs[i][2]

    def load(self):
        """Segments as (addr, bytearray, writable); relocations are applied.
        Imports get addresses from extern_addr()."""
        self.segs = []
        for t, fl, off, va, fsz, msz, al in self.ph:
            if t != 1:
                continue
            b = bytearray(self.d[off:off + fsz]) + bytearray(msz - fsz)
            self.segs.append([va + self.base, b, bool(fl & 2), bool(fl & 1)])
        self.extern_base = 0x7ffff7000000 if self.is64 else 0xf7000000
        W = 8 if self.is64 else 4
        dsy = self.symtab('.dynsym')
        self.tprel = []
        for s in self.sh:
            if s['t'] not in (4, 9):
                continue
            if not s['fl'] & 2:      # not SHF_ALLOC
                continue
            rela = s['t'] == 4
            es = (24 if self.is64 else 12) if rela else (16 if self.is64 else 8)
            for i in range(s['size'] // es):
                o = s['off'] + i * es
                if self.is64:
                    r_off, r_info = struct.unpack_from('<QQ', self.d, o)
                    add = struct.unpack_from('<q', self.d, o + 16)[0] if rela else None
                    ty, si = r_info & 0xffffffff, r_info >> 32
                else:
                    r_off, r_info = struct.unpack_from('<II', self.d, o)
                    add = struct.unpack_from('<i', self.d, o + 8)[0] if rela else None
                    ty, si = r_info & 0xff, r_info >> 8
                loc = r_off + self.base
                if add is None:
                    add = self.rd(loc, W)
                S = 0
                if si:
                    nm, val, sz, info, shndx = dsy[si]
                    S = (val + self.base) if shndx else self.extern_addr(nm, info)
                if self.machine == 62:
                    if ty == 8: v = self.base + add
                    elif ty in (6, 7): v = S
                    elif ty == 1: v = S + add
                    elif ty == 18: v = self.tpoff((dsy[si][1] if si else 0) + add)
                    elif ty == 16: v = 1
                    elif ty == 17: v = (dsy[si][1] if si else 0) + add
                    elif ty == 5: continue
                    else: raise Exception('reloc type %d' % ty)
                elif self.machine == 3:
                    if ty == 8: v = self.base + add
                    elif ty in (6, 7): v = S
                    elif ty == 1: v = S + add
                    elif ty == 2: v = S + add - loc
                    elif ty == 14: v = self.tpoff((dsy[si][1] if si else 0) + add)
                    elif ty == 37: v = -self.tpoff((dsy[si][1] if si else 0) + add)
                    elif ty == 35: v = 1
                    elif ty == 36: v = (dsy[si][1] if si else 0) + add
                    elif ty == 5: continue
                    else: raise Exception('reloc type %d' % ty)
                else:
                    raise Exception('machine')
                self.wr(loc, v, W)

    def tpoff(self, v):
        t = self.tls
        al = max(t[6], 1)
        size = (t[5] + al - 1) & ~(al - 1)
        return v - size

    def extern_addr(self, nm, info=2):
        nm = nm.split('@')[0]
        if nm in self.imports:
            return self.imports[nm]
        if not nm:
            return 0
        a = self.extern_base + 0x40 * (len(self.imports) + 1)
        self.imports[nm] = a
        return a

    def rd(self, a, n):
        for s in self.segs:
            if s[0] <= a < s[0] + len(s[1]):
                return int.from_bytes(s[1][a - s[0]:a - s[0] + n], 'little')
        raise Exception('rd %x' % a)

    def rdb(self, a, n):
        for s in self.segs:
            if s[0] <= a < s[0] + len(s[1]):
                return bytes(s[1][a - s[0]:a - s[0] + n])
        raise Exception('rd %x' % a)

    def wr(self, a, v, n):
        for s in self.segs:
            if s[0] <= a < s[0] + len(s[1]):
                s[1][a - s[0]:a - s[0] + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
                return
        raise Exception('wr %x' % a)

    def disasm(self, objdump='objdump', args=()):
        """dict: absolute address -> (length, text)"""
        if self.machine not in (3, 62):
            return self.disasm_llvm()
        out = subprocess.run([objdump, '-d', '-w', '-M', 'intel', '--no-addresses' if 0 else '-z', self.path],
                             stdout=subprocess.PIPE, check=True).stdout.decode('latin1')
        self.ins = {}
        base = self.base
        ins = self.ins
        for l in out.split('\n'):
            p = l.split('\t')
            if len(p) < 3:
                continue
            try:
                a = int(p[0].strip()[:-1], 16) + base
            except ValueError:
                continue
            ins[a] = (len(p[1].split()), p[2])
        return ins

    def disasm_at(self, addr):
        a = addr - self.base
        out = subprocess.run(['objdump', '-d', '-w', '-M', 'intel', '-z', '--start-address=%#x' % a,
                              '--stop-address=%#x' % (a + 64), self.path],
                             stdout=subprocess.PIPE, check=True).stdout.decode('latin1')
        got = False
        for l in out.split('\n'):
            p = l.split('\t')
            if len(p) < 3:
                continue
            try:
                b = int(p[0].strip()[:-1], 16) + self.base
            except ValueError:
                continue
            if b not in self.ins:
                self.ins[b] = (len(p[1].split()), p[2])
            if b == addr:
                got = True
        return got


    def disasm_llvm(self):
        self.ins = {}
        # AArch64: without aliases register-offset addresses are printed with a shift the encoding does not have
        opt = [] if self.machine == 183 else ['-M', 'no-aliases']
        for l in subprocess.run([os.environ['CROSS_BIN'] + '/llvm-objdump', '-d', '-z'] + opt + [self.path],
                                stdout=subprocess.PIPE, check=True).stdout.decode('latin1').split('\n'):
            g = INS.match(l)
            if g:
                self.ins[int(g.group(1), 16)] = (len(g.group(2).replace(' ', '')) // 2, g.group(3).replace('\t', ' ').strip())
        return self.ins
