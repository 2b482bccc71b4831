#!/usr/bin/env python3
"""Linker for architectures without an installed C library: a static executable in which every function of the C library
and of the unwinder is an address the encoding recognises."""
import sys, os, subprocess, re
LLD = os.environ.get('CROSS_LLD')
keep = []
skip = re.compile(r'(-l|-Wl,|-nodefaultlibs|-nostartfiles|-static|-pie|-no-pie|-fuse-ld|-m(32|64|arch)|-rdynamic|-B)')
for a in sys.argv[1:]:
    if skip.match(a) or a.endswith(('crt1.o', 'crti.o', 'crtn.o')):
        continue
    keep.append(a)
cmd = [LLD, '-flavor', 'gnu', '--gc-sections', '--no-pie', '-static', '-e', 'main', '-z', 'norelro', '--error-limit=0'] + keep


def run(extra):
    p = subprocess.run(cmd + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf8', 'replace')


rc, out = run(['--unresolved-symbols=report-all', '--warn-unresolved-symbols'])
if rc:
    sys.stderr.write(out)
    sys.exit(rc)
und = sorted(set(re.findall(r'undefined symbol: (\S+)', out)))
base = 0x8000
rc, out = run(['--defsym=%s=%#x' % (s, base + 16 * i) for i, s in enumerate(und)])
sys.stderr.write(out)
sys.exit(rc)
