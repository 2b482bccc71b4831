"""Model of the platform unwinder (libgcc) and of Rust's personality: .eh_frame CFI and LSDA tables of the real binary."""
import bisect
from val import *
from state import PathEnd

DW_PC_INDIRECT = 0x80


class Rdr:
    def __init__(self, elf, addr):
        self.e = elf
        self.a = addr

    def u(self, n):
        v = self.e.rd(self.a, n)
        self.a += n
        return v

    def s(self, n):
        v = self.u(n)
        return v - (1 << 8 * n) if v >> (8 * n - 1) else v

    def uleb(self):
        r = sh = 0
        while 1:
            b = self.u(1)
            r |= (b & 127) << sh
            sh += 7
            if not b & 128:
                return r

    def sleb(self):
        r = sh = 0
        while 1:
            b = self.u(1)
            r |= (b & 127) << sh
            sh += 7
            if not b & 128:
                return r - (1 << sh) if b & 64 else r

    def cstr(self):
        s = b''
        while 1:
            b = self.u(1)
            if not b:
                return s.decode('latin1')
            s += bytes([b])

    def enc(self, enc, W, funcbase=0):
        if enc == 0xff:
            return 0
        at = self.a
        f = enc & 15
        if f == 0: v = self.u(W)
        elif f == 1: v = self.uleb()
        elif f == 2: v = self.u(2)
        elif f == 3: v = self.u(4)
        elif f == 4: v = self.u(8)
        elif f == 9: v = self.sleb()
        elif f == 10: v = self.s(2)
        elif f == 11: v = self.s(4)
        elif f == 12: v = self.s(8)
        else: raise Exception('enc')
        if v == 0:
            return 0
        ap = enc & 0x70
        if ap == 0x10: v += at
        elif ap == 0x40: v += funcbase
        elif ap: raise Exception('enc app')
        v &= (1 << 8 * W) - 1
        if enc & 0x80:
            v = self.e.rd(v, W)
        return v


class Cfi:
    def __init__(self, elf):
        self.elf = elf
        self.W = W = 8 if elf.is64 else 4
        self.fdes = []
        self.cies = {}
        s = elf.sec.get('.eh_frame')
        r = Rdr(elf, elf.base + s['addr'])
        end = r.a + s['size']
        while r.a < end:
            start = r.a
            ln = r.u(4)
            if ln == 0:
                break
            body = r.a
            nxt = body + ln
            cid = r.u(4)
            if cid == 0:
                self.cies[start] = self.cie(r, nxt)
            else:
                cie = self.cies[body - cid]
                lo = r.enc(cie['R'], W)
                n = r.enc(cie['R'] & 15, W)
                lsda = 0
                if 'z' in cie['aug']:
                    al = r.uleb()
                    e = r.a + al
                    if cie['L'] != 0xff and al:
                        lsda = r.enc(cie['L'], W)
                    r.a = e
                self.fdes.append((lo, lo + n, cie, r.a, nxt, lsda))
            r.a = nxt
        self.fdes.sort(key=lambda f: f[0])
        self.starts = [f[0] for f in self.fdes]
        self.rowcache = {}
        self.lsdacache = {}

    def cie(self, r, end):
        c = {}
        ver = r.u(1)
        c['aug'] = aug = r.cstr()
        if 'eh' in aug:
            r.u(self.W)
        c['ca'] = r.uleb()
        c['da'] = r.sleb()
        c['ra'] = r.u(1) if ver == 1 else r.uleb()
        c['R'] = 0
        c['L'] = 0xff
        c['P'] = 0
        c['S'] = 'S' in aug
        if aug.startswith('z'):
            al = r.uleb()
            e = r.a + al
            for ch in aug[1:]:
                if ch == 'R': c['R'] = r.u(1)
                elif ch == 'L': c['L'] = r.u(1)
                elif ch == 'P': c['P'] = r.enc(r.u(1), self.W)
            r.a = e
        c['i'] = (r.a, end)
        return c

    def fde(self, pc):
        i = bisect.bisect_right(self.starts, pc) - 1
        if i < 0:
            return None
        f = self.fdes[i]
        return f if pc < f[1] else None

    def row(self, pc, sig):
        """unwind rules at pc: (cfa rule, {reg: rule}, args_size, fde) ; pc is the return address, sig: callee was a signal frame"""
        key = (pc, sig)
        if key in self.rowcache:
            return self.rowcache[key]
        f = self.fde(pc if sig else pc - 1)
        if f is None:
            self.rowcache[key] = None
            return None
        lo, hi, cie, a, e, lsda = f
        st = {'cfa': None, 'r': {}, 'args': 0}
        self.run(cie['i'][0], cie['i'][1], cie, lo, None, st, None, sig)
        init = (st['cfa'], dict(st['r']))
        self.run(a, e, cie, lo, pc, st, init, sig)
        v = (st['cfa'], st['r'], st['args'], f)
        self.rowcache[key] = v
        return v

    def run(self, a, e, cie, loc, pc, st, init, sig):
        r = Rdr(self.elf, a)
        stack = []
        W = self.W
        lim = None if pc is None else pc + (1 if sig else 0)
        while r.a < e and (lim is None or loc < lim):
            b = r.u(1)
            op, x = b & 0xc0, b & 0x3f
            if op == 0x40:
                loc += x * cie['ca']
            elif op == 0x80:
                st['r'][x] = ('off', r.uleb() * cie['da'])
            elif op == 0xc0:
                self.restore(st, init, x)
            elif x == 0:
                pass
            elif x == 1: loc = r.enc(cie['R'], W)
            elif x == 2: loc += r.u(1) * cie['ca']
            elif x == 3: loc += r.u(2) * cie['ca']
            elif x == 4: loc += r.u(4) * cie['ca']
            elif x == 5:
                g = r.uleb(); st['r'][g] = ('off', r.uleb() * cie['da'])
            elif x == 6: self.restore(st, init, r.uleb())
            elif x == 7: st['r'][r.uleb()] = ('undef',)
            elif x == 8: st['r'][r.uleb()] = ('same',)
            elif x == 9:
                g = r.uleb(); st['r'][g] = ('reg', r.uleb())
            elif x == 10: stack.append((st['cfa'], dict(st['r'])))
            elif x == 11:
                c, q = stack.pop()
                st['cfa'], st['r'] = c, dict(q)
            elif x == 12:
                g = r.uleb(); st['cfa'] = ('reg', g, r.uleb())
            elif x == 13: st['cfa'] = ('reg', r.uleb(), st['cfa'][2])
            elif x == 14: st['cfa'] = ('reg', st['cfa'][1], r.uleb())
            elif x == 15:
                n = r.uleb(); st['cfa'] = ('expr', r.a, n); r.a += n
            elif x == 16:
                g = r.uleb(); n = r.uleb(); st['r'][g] = ('expr', r.a, n); r.a += n
            elif x == 17:
                g = r.uleb(); st['r'][g] = ('off', r.sleb() * cie['da'])
            elif x == 18:
                g = r.uleb(); st['cfa'] = ('reg', g, r.sleb() * cie['da'])
            elif x == 19: st['cfa'] = ('reg', st['cfa'][1], r.sleb() * cie['da'])
            elif x == 20:
                g = r.uleb(); st['r'][g] = ('val', r.uleb() * cie['da'])
            elif x == 21:
                g = r.uleb(); st['r'][g] = ('val', r.sleb() * cie['da'])
            elif x == 22:
                g = r.uleb(); n = r.uleb(); st['r'][g] = ('valexpr', r.a, n); r.a += n
            elif x == 0x2e: st['args'] = r.uleb()
            elif x == 0x2d: pass
            else:
                raise Exception('CFA op %#x' % b)

    def restore(self, st, init, g):
        if init and g in init[1]:
            st['r'][g] = init[1][g]
        else:
            st['r'].pop(g, None)

    def lsda(self, f):
        """call sites: list of (start, end, landing pad, action kind) ; kind: 0 cleanup, 1 catch, 2 filter"""
        a = f[5]
        if a in self.lsdacache:
            return self.lsdacache[a]
        r = Rdr(self.elf, a)
        W = self.W
        lpenc = r.u(1)
        lpstart = r.enc(lpenc, W) if lpenc != 0xff else f[0]
        tenc = r.u(1)
        if tenc != 0xff:
            r.uleb()
        csenc = r.u(1)
        cslen = r.uleb()
        end = r.a + cslen
        out = []
        while r.a < end:
            s = r.enc(csenc & 15, W); n = r.enc(csenc & 15, W); lp = r.enc(csenc & 15, W)
            act = r.uleb()
            kind = 0
            if act:
                q = Rdr(self.elf, end + act - 1)
                t = q.sleb()
                kind = 1 if t > 0 else 2 if t < 0 else 0
            out.append((f[0] + s, f[0] + s + n, lpstart + lp if lp else 0, kind))
        self.lsdacache[a] = out
        return out


class Ctx:
    """virtual registers of one frame; pc is the return address into it"""
    __slots__ = ('r', 'f', 'pc', 'sig', 'row')

    def __init__(self, r, f, pc, sig):
        self.r = r
        self.f = f          # callee saved floating point registers: number -> low 64 bits
        self.pc = pc
        self.sig = sig      # the frame below was a signal frame: pc itself is looked up


class Unwinder:
    def __init__(self, mach):
        self.m = mach
        self.isa = mach.isa
        self.cfi = Cfi(mach.elf)
        self.W = self.cfi.W
        self.bits = 8 * self.W
        self.dmap = self.isa.dmap

    def expr(self, st, a, n, ctx, cfa=None):
        r = Rdr(self.m.elf, a)
        e = a + n
        s = [cfa] if cfa is not None else []
        w = self.bits
        while r.a < e:
            op = r.u(1)
            if 0x30 <= op <= 0x4f: s.append(op - 0x30)
            elif 0x50 <= op <= 0x6f: s.append(ctx.r[self.dmap[op - 0x50]])
            elif 0x70 <= op <= 0x8f:
                o = r.sleb() & MASK[w]
                s.append(add(ctx.r[self.dmap[op - 0x70]], o, w))
            elif op == 0x06: s.append(st.rd(s.pop(), self.W))
            elif op == 0x23: s.append(add(s.pop(), r.uleb() & MASK[w], w))
            elif op == 0x08: s.append(r.u(1))
            elif op == 0x09: s.append(r.s(1) & MASK[w])
            elif op == 0x0a: s.append(r.u(2))
            elif op == 0x0b: s.append(r.s(2) & MASK[w])
            elif op == 0x0c: s.append(r.u(4))
            elif op == 0x0d: s.append(r.s(4) & MASK[w])
            elif op == 0x0e: s.append(r.u(8))
            elif op == 0x10: s.append(r.uleb())
            elif op == 0x11: s.append(r.sleb() & MASK[w])
            elif op == 0x12: s.append(s[-1])
            elif op == 0x13: s.pop()
            elif op == 0x14: s.append(s[-2])
            elif op == 0x16: s[-1], s[-2] = s[-2], s[-1]
            elif op == 0x1a: b = s.pop(); s.append(and_(s.pop(), b, w))
            elif op == 0x1c: b = s.pop(); s.append(sub(s.pop(), b, w))
            elif op == 0x22: b = s.pop(); s.append(add(s.pop(), b, w))
            elif op == 0x24: b = s.pop(); s.append(shl(s.pop(), b, w))
            elif op == 0x2a: b = s.pop(); s.append(1 if st.decide(bnot(slt(s.pop(), b, w))) else 0)
            else:
                raise PathEnd('unsupported', 'DWARF op %#x' % op)
        return s[-1]

    def start(self, st):
        """context of the caller of the hooked function st is at (return address on top of the stack)"""
        isa = self.isa
        r = st.r[:]
        pc, r[isa.SP] = isa.return_to(st)
        return Ctx(r, {i: isa.fp64(st, i) for i in isa.fpsaved}, pc, False)

    def step(self, st, c):
        """(row, caller context) ; row None when there is no unwind information"""
        if type(c.pc) is not int:
            raise PathEnd('crash', 'unwinder met a symbolic return address ' + repr(c.pc)[:80])
        row = self.cfi.row(c.pc, c.sig)
        if row is None:
            return None, None
        cfar, regs, args, fde = row
        if cfar[0] == 'reg':
            cfa = add(c.r[self.dmap[cfar[1]]], cfar[2] & MASK[self.bits], self.bits)
        else:
            cfa = self.expr(st, cfar[1], cfar[2], c)
        n = c.r[:]
        nf = c.f
        fp = self.isa.fpdwarf
        n[self.isa.SP] = cfa
        pc = None
        ra = fde[2]['ra']
        if ra not in regs and ra in self.dmap and self.isa.LR is not None:
            pc = c.r[self.dmap[ra]]
        for g, rule in regs.items():
            k = rule[0]
            if g in fp:
                if fp[g] not in nf or k == 'same':
                    continue
                if k != 'off':
                    raise PathEnd('unsupported', 'unwind rule of a floating point register')
                if nf is c.f:
                    nf = dict(nf)
                nf[fp[g]] = st.rd(add(cfa, rule[1] & MASK[self.bits], self.bits), 8)
                continue
            if k == 'off':
                v = st.rd(add(cfa, rule[1] & MASK[self.bits], self.bits), self.W)
            elif k == 'same':
                continue
            elif k == 'undef':
                if g == fde[2]['ra']:
                    pc = 0
                continue
            elif k == 'reg':
                v = c.r[self.dmap[rule[1]]]
            elif k == 'val':
                v = add(cfa, rule[1] & MASK[self.bits], self.bits)
            elif k == 'expr':
                v = st.rd(self.expr(st, rule[1], rule[2], c, cfa), self.W)
            else:
                v = self.expr(st, rule[1], rule[2], c, cfa)
            if g == fde[2]['ra']:
                pc = v
                if g in self.dmap and self.isa.LR is not None:
                    n[self.dmap[g]] = v
            elif g in self.dmap:
                n[self.dmap[g]] = v
        if pc is None:
            raise PathEnd('crash', 'unwinder: no return address rule')
        return row, Ctx(n, nf, pc, fde[2]['S'])

    def action(self, c, row):
        """what the personality of this frame does: None, ('cleanup', lp), ('catch', lp), ('terminate',)"""
        fde = row[3]
        if not fde[2]['P'] or not fde[5]:
            return None
        ip = c.pc if c.sig else c.pc - 1
        for s, e, lp, kind in self.cfi.lsda(fde):
            if s <= ip < e:
                if not lp:
                    return None
                return ('catch' if kind == 1 else 'cleanup' if kind == 0 else 'filter', lp)
        return ('terminate',)

    def raise_(self, st, exc):
        """_Unwind_RaiseException: returns a landing pc or None when no handler exists"""
        c = self.start(st)
        cur = c
        n = 0
        while 1:
            row, nxt = self.step(st, cur)
            if row is None:
                return None
            a = self.action(cur, row)
            if a and a[0] == 'terminate':
                raise PathEnd('abort', 'panic in a function that cannot unwind (no table entry for %#x in %s)' % (cur.pc, self.m.elf.func_at(cur.pc)))
            if a and a[0] in ('catch', 'filter'):
                # libgcc's phase 2 stops at the frame with this CFA
                self.remember(st, exc, nxt.r[self.isa.SP])
                break
            cur = nxt
            n += 1
            if n > 300:
                raise PathEnd('crash', 'unwinder does not terminate')
        return self.phase2(st, c, nxt.r[self.isa.SP])

    def remember(self, st, exc, cfa):
        d = dict(st.info.get('handlers', {}))
        d[repr(exc)] = cfa
        st.info['handlers'] = d

    def phase2(self, st, cur, handler_cfa):
        n = 0
        while 1:
            row, nxt = self.step(st, cur)
            if row is None:
                raise PathEnd('crash', 'unwinder: phase 2 ran off the stack')
            at_handler = same(nxt.r[self.isa.SP], handler_cfa)
            a = self.action(cur, row)
            if a and a[0] == 'terminate':
                raise PathEnd('abort', 'panic in a function that cannot unwind')
            if a and (a[0] == 'cleanup' or at_handler):
                return self.install(st, cur, row, a[1])
            if at_handler:
                raise PathEnd('crash', 'unwinder: handler vanished')
            cur = nxt
            n += 1
            if n > 300:
                raise PathEnd('crash', 'unwinder does not terminate')

    def install(self, st, c, row, lp):
        st.info['install'] = (c.r[:], row[2], c.f, lp)
        return lp

    def resume(self, st, exc):
        c = self.start(st)
        h = st.info.get('handlers', {}).get(repr(exc))
        if h is None:
            raise PathEnd('crash', '_Unwind_Resume of an unknown exception')
        return self.phase2(st, c, h)


def same(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is Ptr and type(b) is Ptr:
        return a.b == b.b and a.o == b.o
    if type(a) in (int, Ptr) or type(b) in (int, Ptr):
        return False
    return a is b or a.eq(b)
