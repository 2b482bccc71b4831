#!/usr/bin/env python3
"""Linker for the Windows targets without an installed SDK: functions of the C runtime and of the system become stubs that
the encoding recognises by name; the executable gets a COFF symbol table."""
import sys, os, subprocess, re
LLD = os.environ['CROSS_LLD']
a = []
for x in sys.argv[1:]:
    if x.startswith('@'):
        t = open(x[1:], 'rb').read()
        t = t.decode('utf-16') if t[:2] in (b'\xff\xfe', b'\xfe\xff') else t.decode()
        a += [l[1:-1] if l.startswith('"') else l for l in t.split('\n') if l]
    else:
        a.append(x)
out = [x[5:] for x in a if x.upper().startswith('/OUT:')][0]
i386 = 'i686' in out
keep = []
for x in a:
    u = x.upper()
    if u.startswith(('/DEFAULTLIB', '/DEBUG', '/PDB', '/NXCOMPAT', '/SAFESEH', '/OPT', '/NATVIS')):
        continue
    if x.endswith('.lib') and not os.path.isabs(x):
        continue
    keep.append(x)
pre = '_' if i386 else ''
cmd = [LLD, '-flavor', 'link', '/nodefaultlib', '/entry:main', '/subsystem:console', '/debug:symtab', '/opt:ref', '/opt:noicf',
       '/fixed', '/safeseh:no', '/base:' + ('0x400000' if i386 else '0x140000000'), '/errorlimit:0', '/incremental:no'] + keep


def run(extra):
    p = subprocess.run(cmd + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf8', 'replace')


rc, txt = run(['/force:unresolved'])
if rc:
    sys.stderr.write(txt)
    sys.exit(rc)
# printed demangled: the stub needs the name of the symbol itself
und = sorted(set(re.findall(r'undefined symbol: (.*)', run(['/force:unresolved', '/demangle:no'])[1])))
s = ['.intel_syntax noprefix', '.section .vstub,"xr"']
data = []
for u in und:
    if u in (pre + '_tls_index', pre + '_fltused'):
        data += ['.globl "%s"' % u, '"%s": .quad 0' % u]
    elif u == '__tls_array':
        s += ['.globl "%s"' % u, '.set "%s", 0x2c' % u]
    elif u.startswith('__imp_'):
        n = u[6:]
        s += ['.balign 16', '"vimp%s":' % u, '.globl "vimp%s"' % u, 'ud2']
        data += ['.globl "%s"' % u, '"%s": %s "vimp%s"' % (u, '.long' if i386 else '.quad', u)]
    else:
        s += ['.balign 16', '.globl "%s"' % u, '"%s":' % u, 'ud2']
s += ['.data', '.balign 8'] + data
s += ['.section .vnames,"dr"'] + ['.asciz "%s"' % u for u in und]
o = out + '.stub'
open(o + '.s', 'w').write('\n'.join(s) + '\n')
t = 'i686-pc-windows-msvc' if i386 else 'x86_64-pc-windows-msvc'
p = subprocess.run(['clang', '--target=' + t, '-c', '-x', 'assembler', o + '.s', '-o', o + '.obj'], stderr=subprocess.PIPE)
if p.returncode:
    sys.stderr.write(p.stderr.decode('utf8', 'replace'))
    sys.exit(1)
rc, txt = run([o + '.obj'])
sys.stderr.write(txt)
sys.exit(rc)
