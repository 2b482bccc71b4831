"""Which scenarios decide which property, on which configurations, within which bounds."""
X64, X86 = 'x86_64-unknown-linux-gnu', 'i686-unknown-linux-gnu'
CONFIGS = {}
for n, t in (('x64', X64), ('x86', X86)):
    for p, pr in (('dev', 'dev'), ('rel', 'release')):
        CONFIGS['%s-%s' % (n, p)] = dict(target=t, profile=pr, features=['unwind'])
        CONFIGS['%s-%s-nounwind' % (n, p)] = dict(target=t, profile=pr, features=[])
        # asm-unwind needs two unstable features of the compiler
        CONFIGS['%s-%s-asm' % (n, p)] = dict(target=t, profile=pr, features=['unwind', 'asm-unwind'], bootstrap=True)
        CONFIGS['%s-%s-fp' % (n, p)] = dict(target=t, profile=pr, features=['unwind'], rustflags='-C force-frame-pointers=yes')
    for v, env in (('size', dict(OPT_LEVEL='s')), ('lto', dict(LTO='fat', CODEGEN_UNITS='1')), ('o1', dict(OPT_LEVEL='1'))):
        CONFIGS['%s-%s' % (n, v)] = dict(target=t, profile='release', features=['unwind'], env={'CARGO_PROFILE_RELEASE_' + k: w for k, w in env.items()})
    CONFIGS['%s-static' % n] = dict(target=t, profile='release', features=['unwind'], rustflags='-C relocation-model=static')
# the other architectures: std is compiled from the toolchain's sources, the C library and the unwinder are modelled
CROSS = {'a64': 'aarch64-unknown-linux-gnu', 'rv64': 'riscv64gc-unknown-linux-gnu', 'rv32': 'riscv32gc-unknown-linux-gnu',
         'la64': 'loongarch64-unknown-linux-gnu'}
for n, t in CROSS.items():
    b = dict(target=t, profile='release', features=['unwind'], cross=True, toolchain='stable', bootstrap=True, twin='x86-rel' if '32' in n else 'x64-rel')
    CONFIGS[n + '-rel'] = b
    CONFIGS[n + '-nounwind'] = dict(b, features=[])
    CONFIGS[n + '-fp'] = dict(b, rustflags='-C force-frame-pointers=yes')
    CONFIGS[n + '-asm'] = dict(b, features=['unwind', 'asm-unwind'])
    CONFIGS[n + '-size'] = dict(b, env={'CARGO_PROFILE_RELEASE_OPT_LEVEL': 's'})
    CONFIGS[n + '-dev'] = dict(b, profile='dev')
# Windows: linked without the SDK, the C runtime and the system are modelled
WIN = {'w64': 'x86_64-pc-windows-msvc', 'w32': 'i686-pc-windows-msvc'}
for n, t in WIN.items():
    b = dict(target=t, profile='release', features=['unwind'], cross=True, toolchain='stable', bootstrap=True, twin='x86-rel' if n == 'w32' else 'x64-rel')
    CONFIGS[n + '-rel'] = b
    CONFIGS[n + '-nounwind'] = dict(b, features=[])
    CONFIGS[n + '-fp'] = dict(b, rustflags='-C force-frame-pointers=yes')
    CONFIGS[n + '-asm'] = dict(b, features=['unwind', 'asm-unwind'])
    CONFIGS[n + '-size'] = dict(b, env={'CARGO_PROFILE_RELEASE_OPT_LEVEL': 's'})
    CONFIGS[n + '-dev'] = dict(b, profile='dev')
U4 = ['x64-dev', 'x64-rel', 'x86-dev', 'x86-rel']
N4 = [c + '-nounwind' for c in U4]
F4 = [c + '-fp' for c in U4]
A4 = [c + '-asm' for c in U4]
V8 = [n + '-' + v for n in ('x64', 'x86') for v in ('size', 'lto', 'o1', 'static')]
ALL = U4 + N4

# scenarios whose event logs are not comparable between architectures
XREGS = {'c03': ['pressure_p', 'pressure_c', 'pressure_on', 'frames3', 'nest', 'types', 'panics', 'leaf'], 'c12': ['both_intact'],
         'c09': ['basic', 'plain_on_stack', 'nested', 'trapped', 'shapes'], 'c17': ['both_intact', 'panic_out'],
         'c22': ['default_size', 'default_default', 'default_run']}

METHOD = ('symbolic execution of the compiled real code (machine code of corosensei and its harness, regenerated from /repo on every '
          'run) with z3 bit-vector queries; counterexamples replayed on the native build')
COMMON_BOUNDS = [
    'configurations: the listed targets, profiles and code generation modes (unoptimised, optimised, -O1, size-optimised, fat LTO, '
    'frame pointers, position-dependent, no unwind, asm-unwind) with rustc 1.99.1',
    'supplied stacks lie at any 16-aligned address in 2^32..2^46 (64 bit) or 2^24..0x50000000 (32 bit), disjoint from other memory; '
    'their previous content is arbitrary',
    'the C library, the allocator and the Itanium unwinder (_Unwind_RaiseException/Resume/Backtrace) are modelled: allocation '
    'succeeds; unwinding follows the real .eh_frame and LSDA data of the executable',
    'the panic hook and message formatting are skipped (rust_begin_unwind raises the payload directly)',
    'one thread, except for C24; user code is the harness code',
]


def prop(bounds, jobs, **k):
    d = dict(bounds=bounds, jobs=jobs, technique=METHOD)
    d.update(k)
    return d


SPECS = {
    'C01': prop('every bit pattern of every value; value types: all sizes 0..17 and 20 further ones up to 1500 bytes (thorough: every '
                'size up to 65), alignments 1..1024, owned values; up to 4 suspensions with arbitrary inputs (thorough: 24); exchanges of '
                'owned values cut short by drop, force_unwind, panics or a swallowed unwind after each of 3 suspensions; stack '
                'frames up to 3 deep on either side of the switch', [
        dict(bin='c01', cfg=U4, scen=['words', 'small', 'medium', 'align', 'align64', 'ownership', 'tiny_owned', 'layouts', 'depth', 'hist',
                                      'cut_word', 'cut_zst', 'cut_big'],
             covers=dict(cut_word=list(range(200, 218)), cut_zst=list(range(200, 218)), cut_big=list(range(200, 218)), layouts=[2, 3], hist=[80, 81, 82, 83, 84], depth=[100 + i for i in range(9)])),
        dict(bin='c01', cfg=['x64-rel', 'x86-rel'], scen=['large', 'huge', 'align256', 'align1024'], tcfg=U4),
        dict(bin='c01', cfg=U4, tier='thorough', scen=['allsizes', 'align512', 'hist_long']),
        dict(bin='c01', cfg=['x64-dev-nounwind', 'x64-rel-nounwind', 'x86-rel-nounwind'], tcfg=N4, scen=['words', 'small', 'ownership', 'hist']),
    ]),
    'C02': prop('every script of 5 operations (thorough: 6) over {resume, query, force_unwind} on a body that at each step suspends, '
                'returns or panics; force_reset at every stage; two coroutines in every order of 4 (6) operations', [
        dict(bin='c02', cfg=U4, scen=['script3', 'forced_reset', 'pairs', 'accessors', 'done_again', 'endings'],
             covers=dict(script3=[1, 10, 21, 22, 23, 40], forced_reset=[0, 1, 2], endings=[0, 1, 2])),
        dict(bin='c02', cfg=['x64-rel', 'x86-rel'], tcfg=U4, scen=['script5'], cover=[1, 10, 21, 22, 23, 40]),
        dict(bin='c02', cfg=U4, tier='thorough', scen=['script6', 'pairs6']),
        dict(bin='c02', cfg=['x64-dev-nounwind', 'x86-rel-nounwind'], tcfg=N4, scen=['script3', 'forced_reset', 'pairs', 'done_again', 'endings']),
    ]),
    'C03': prop('arbitrary values in all callee-saved registers, caller-saved registers (including xmm) and frames on both sides of '
                'every switch; up to 3 (thorough 4) steps of {suspend at depth 0 or 3, on_stack, on_parent_stack, return} on the coroutine '
                'side ended by return, force_unwind or drop; panics through every kind of boundary; nesting depth 2; '
                '1, 4, 6 and 22 values kept alive across an inlined switch', [
        dict(bin='c03', cfg=U4, scen=['pressure_p', 'pressure_c', 'pressure_on', 'frames3', 'nest', 'types', 'panics', 'leaf'],
             covers=dict(frames3=[1, 10, 11, 12, 13, 14, 15, 16], panics=[0, 1, 2, 3])),
        dict(bin='c03', cfg=['x64-dev-nounwind', 'x64-rel-nounwind', 'x86-rel-nounwind'], tcfg=N4,
             scen=['pressure_p', 'pressure_c', 'pressure_on', 'frames3', 'nest', 'types', 'leaf']),
        dict(bin='c03', cfg=U4, tier='thorough', scen=['frames4'], max_paths=1000000),
    ]),
    'C04': prop('stacks of 4096 bytes and larger; captured objects of the listed sizes up to 1007 bytes and alignments up to 512; '
                'up to 2 resumes; every byte of other stacks, the heap and the resumer frames compared before and after each operation', [
        dict(bin='c04', cfg=U4, scen=['life_min', 'life_big', 'inner_ops', 'call_min', 'call_big', 'on_parent', 'captures',
                                      'captures_large', 'captures_aligned', 'captures_a64', 'captures_a256', 'captures_a512'],
             covers=dict(life_min=[0, 4], life_big=[0, 1, 2, 3, 4], inner_ops=[20, 21, 22], captures=[1, 2])),
        dict(bin='c04', cfg=U4, scen=['refused'], main_align=8192, covers=dict(refused=[0, 1, 2, 3])),
        dict(bin='c04', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['life_min', 'inner_ops', 'call_min', 'on_parent', 'captures']),
    ]),
    'C05': prop('closure captures of 44 sizes 0..1000 and alignments 1..1024 (with several sizes each); every 16-aligned stack base; '
                'alignment at body entry, after a suspend, in on_stack, on_parent_stack and recovery closures; parents at 9 frame '
                'layouts on the main, a coroutine\'s and an on_stack stack; traps at any stack pointer with arbitrary registers', [
        dict(bin='c05', cfg=U4, scen=['plain', 'sizes', 'over_a', 'over_b', 'calls_a', 'parent', 'traps'],
             covers=dict(plain=[1, 2], sizes=[1, 2], over_a=[1, 2], over_b=[1, 2], calls_a=[3], parent=[4], traps=[5])),
        dict(bin='c05', cfg=['x64-rel', 'x86-rel'], tcfg=U4, scen=['over_c', 'calls_b'], covers=dict(over_c=[1, 2], calls_b=[3])),
        dict(bin='c05', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['plain', 'over_a', 'calls_a', 'parent', 'traps'],
             covers=dict(plain=[1, 2], over_a=[1, 2], calls_a=[3], parent=[4], traps=[5])),
    ]),
    'C06': prop('captures of the 37 listed sizes 0..1025.. and alignments 1..8192 with arbitrary content, on any stack address; every '
                'choice of drop, force_unwind, force_reset, resume (to completion, or unwound while suspended); destructors of captured '
                'objects that panic with any payload', [
        dict(bin='c06', cfg=U4, scen=['small', 'medium', 'large', 'align_a', 'align_b'], cover=[1, 2, 3, 4, 5]),
        dict(bin='c06', cfg=U4, scen=['limits', 'align_limits'], covers=dict(limits=[10, 11], align_limits=[12, 13]), main_align=8192),
        dict(bin='c06', cfg=U4, scen=['boom', 'consumed'], cover=[1, 2]),
        dict(bin='c06', cfg=['x64-rel', 'x86-rel'], tcfg=U4, scen=['align_c'], cover=[1, 2, 3, 4, 5]),
        dict(bin='c06', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['small', 'medium', 'align_a', 'limits', 'align_limits'],
             main_align=8192, covers=dict(small=[1, 2, 3, 4], medium=[1, 2, 3, 4], align_a=[1, 2, 3, 4], limits=[10, 11], align_limits=[12, 13])),
    ]),
    'C07': prop('suspension at call depth 0..2 (thorough 0..8) after up to 1 (4) earlier suspensions; every pattern of 3 on all and 5 on '
                'optimised builds (thorough 7) create/destroy steps between suspensions; 5 ways to swallow or replace the unwind; foreign payload; unwinds through an '
                'inner coroutine, on_stack, an owned coroutine, a destructor that runs a coroutine; owner panicking; 3 coroutines '
                'dropped in every order', [
        dict(bin='c07', cfg=U4, scen=['chain_s', 'pattern3', 'swallow', 'foreign_payload', 'nested', 'panicking', 'several'],
             covers=dict(chain_s=[1, 2], pattern3=[1, 2], swallow=[0, 1, 2, 3, 4], nested=[0, 1, 2, 3, 30], panicking=[0, 1])),
        dict(bin='c07', cfg=U4, scen=['drop_swallow'], cover=[]),
        dict(bin='c07', cfg=['x64-rel', 'x86-rel'], tcfg=U4, scen=['pattern5'], cover=[1, 2]),
        dict(bin='c07', cfg=U4, tier='thorough', scen=['chain_l', 'pattern7'], cover=[1, 2]),
    ]),
    'C08': prop('payloads of 6 types with arbitrary content; panics at call depth 0..2 (thorough 0..6) after 0..2 (0..6) suspensions; '
                'latest resumer main or another coroutine, three nesting levels caught at each; on_stack / on_parent_stack / recovery '
                'closures; panics caught inside; resumer already unwinding', [
        dict(bin='c08', cfg=U4, scen=['life_small', 'life_big', 'life_align', 'other_resumer', 'three_levels', 'on_calls', 'main_calls',
                                      'trapped', 'caught_inside', 'in_cleanup', 'answered'],
             covers=dict(life_small=[0, 1, 2, 10, 11, 20, 21], life_big=[0, 1, 2, 10, 11, 12, 20, 21, 22], life_align=[0, 1, 2],
                         other_resumer=[1, 2], three_levels=[0, 1, 2], on_calls=[0, 1, 2, 10, 11], main_calls=[0, 1], trapped=[0, 1],
                         caught_inside=[0, 1, 2], in_cleanup=[5], answered=[0, 1, 2, 10, 11])),
        dict(bin='c08', cfg=U4, tier='thorough', scen=['life_deep'], cover=[0, 1, 2, 16, 26]),
    ]),
    'C09': prop('arbitrary callee-saved registers in the entering frame and at the point of the backtrace; three resumes from call depth '
                '0..2, on_stack nested 3 deep, on_parent_stack, two nested coroutines with changing resumers, recovery closures after a '
                'trap at any 8-aligned stack pointer; 7 capture/value shapes', [
        dict(bin='c09', cfg=ALL, scen=['basic', 'plain_on_stack', 'nested', 'trapped', 'shapes'], covers=dict(trapped=[0, 1])),
    ]),
    'C10': prop('frame-pointer builds; three resumes from call depth 0..2, on_stack nested 3 deep, on_parent_stack, two nested coroutines '
                'with changing resumers, recovery closures; 7 capture/value shapes', [
        dict(bin='c10', cfg=F4, scen=['basic', 'plain_on_stack', 'nested', 'trapped', 'shapes'], covers=dict(trapped=[0, 1])),
    ]),
    'C11': prop('20 pairs of capture and result shapes (sizes 0..1500, alignments 1..128) with arbitrary content; 3 (optimised builds 5) '
                'successive, nested, owned and borrowed uses in every order; suspension up to 2 (3) on_stack levels deep, resumed from the main '
                'stack or from within another on_stack; panics before, after and without destructors; stacks offered as part of an area', [
        dict(bin='c11', cfg=U4, scen=['shapes_a', 'shapes_b', 'shapes_align', 'reuse', 'suspend1', 'outcome', 'any_base'],
             covers=dict(shapes_a=list(range(10)), shapes_b=list(range(6)), shapes_align=list(range(4)), reuse=[1], suspend1=[1],
                         outcome=[0, 1, 2], any_base=[1])),
        dict(bin='c11', cfg=['x64-rel', 'x86-rel'], tcfg=U4, scen=['reuse5', 'suspend2'], cover=[1]),
        dict(bin='c11', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['shapes_a', 'shapes_b', 'shapes_align', 'reuse', 'suspend1',
                                                                              'any_base'],
             covers=dict(shapes_a=list(range(10)), shapes_b=list(range(6)), shapes_align=list(range(4)), reuse=[1], suspend1=[1], any_base=[1])),
    ]),
    'C12': prop('resumers: 10 frame layouts at two depths on the main stack, another coroutine (2 layouts), an on_stack call, in every order '
                'of 3 (optimised 5) resumes; 20 capture/result shapes; nested coroutines, on_stack and parent calls; panics; arbitrary '
                'registers on both sides; all live memory compared', [
        dict(bin='c12', cfg=U4, scen=['depth', 'resumers3', 'both_intact', 'shapes_a', 'shapes_b', 'shapes_align', 'nest', 'outcome'],
             covers=dict(depth=list(range(10)), resumers3=[1], both_intact=[1], shapes_a=list(range(8)), shapes_b=list(range(7)),
                         shapes_align=list(range(5)), nest=[0, 1, 2, 3], outcome=[0, 1])),
        dict(bin='c12', cfg=['x64-rel', 'x86-rel'], tcfg=U4, scen=['resumers5'], cover=[1]),
        dict(bin='c12', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['depth', 'resumers3', 'both_intact', 'shapes_a', 'nest'],
             covers=dict(depth=list(range(10)), resumers3=[1], both_intact=[1], shapes_a=list(range(8)), nest=[0, 1, 2, 3])),
    ]),
    'C13': prop('every requested size 0..=usize::MAX, every power-of-two page size 2^10..2^34 (32 bit: 2^26), every page-aligned address the '
                'system may return below the end of user space, failing and succeeding mmap/mprotect; protection of every byte between '
                'limit and base', [
        dict(bin='c13', cfg=U4, scen=['minimum', 'any_size', 'cooperative', 'default', 'two'],
             covers=dict(minimum=[1], any_size=[1, 2, 3, 4], cooperative=[1, 2], default=[1, 2], two=[0, 1])),
        dict(bin='c13', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['cooperative', 'default', 'two'],
             covers=dict(cooperative=[1, 2], default=[1, 2], two=[0, 1])),
    ]),
    'C14': prop('every success/failure pattern of mmap, mprotect and munmap with every error code 1..133, every size, page size and address '
                '(as in C13); two (thorough and optimised: three) stacks created and released in different orders; the life of a coroutine on 64 KiB and 1 MiB default '
                'stacks ended by drop, into_stack, return, panic, unwind', [
        dict(bin='c14', cfg=U4, scen=['pattern', 'pattern_unmap', 'interleaved2', 'lifecycle', 'lifecycle_std', 'default_fails'],
             covers=dict(pattern=[0, 2, 3, 4], pattern_unmap=[0, 1, 2, 3, 4], interleaved2=[0, 1, 2], lifecycle=[0, 1, 2, 3, 10],
                         lifecycle_std=[0, 1, 2, 3, 10], default_fails=[0, 1])),
        dict(bin='c14', cfg=['x64-rel', 'x86-rel'], tcfg=U4, scen=['interleaved3'], cover=[0, 1, 2, 3]),
        dict(bin='c14', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['interleaved2', 'lifecycle', 'lifecycle_std'],
             covers=dict(interleaved2=[0, 1, 2], lifecycle=[0, 1, 2, 10], lifecycle_std=[0, 1, 2, 10])),
    ]),
    'C20': prop('every stack address, size and page size as in C13, every identifier Valgrind may return, every failure pattern of '
                'mmap/mprotect; two stacks in either order; coroutines that are dropped fresh, finished or handed their stack to another one; '
                'without Valgrind: arbitrary callee-saved registers', [
        dict(bin='c20', cfg=U4, scen=['faults', 'several', 'life', 'invisible'],
             covers=dict(faults=[0, 1, 2, 3], several=[0, 1], life=[0, 1, 2], invisible=[1])),
        dict(bin='c20', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['several', 'life', 'invisible'],
             covers=dict(several=[0, 1], life=[0, 1, 2], invisible=[1])),
    ]),
    'C24': prop('two threads, sequential consistency, preemption after any instruction that touches memory both can reach (2, thorough 4 '
                'preemptions); each thread performs 1 or 2 (thorough 2 and 2) of 8 kinds of use: values of 4 shapes, on_stack and on_parent_stack, unstarted '
                'coroutines, forced unwinds, panics, default stacks; a coroutine used 2 or 3 (thorough 5) times and its stack, by a new '
                'thread or the first one each time', [
        dict(bin='c24', cfg=U4, scen=['pair', 'memory', 'migrate2', 'migrate3'],
             covers=dict(pair=[0, 1, 2, 3, 4, 5, 6, 7, 99], memory=[99], migrate2=[100, 101, 102, 103, 104], migrate3=[100, 101, 102, 103, 104])),
        dict(bin='c24', cfg=['x64-rel', 'x86-rel'], tcfg=U4, scen=['longer'], cover=[99]),
        dict(bin='c24', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['pair', 'memory', 'migrate2'],
             covers=dict(pair=[0, 1, 2, 3, 4, 5, 99], memory=[99], migrate2=[101])),
        dict(bin='c24', cfg=U4, tier='thorough', scen=['migrate5'], cover=[100, 101, 102, 103, 104]),
        dict(bin='c24', cfg=['x64-rel', 'x86-rel'], tier='thorough', scen=['pair', 'memory', 'longer', 'longest'], cover=[99], max_switches=4, max_paths=1000000),
    ]),
    'C15': prop('coroutines that are fresh, suspended, returned, reset, force-unwound or panicked, then dropped or asked for their stack; stack '
                'objects of three sizes with arbitrary state; 2 (optimised 3) successive coroutines of three shapes on one stack, each ended in '
                'any way; borrowed stacks; a coroutine owning another', [
        dict(bin='c15', cfg=U4, scen=['drop_small', 'drop_rich', 'back_small', 'back_rich', 'reuse2', 'borrow', 'own'],
             covers=dict(drop_small=list(range(6)), drop_rich=list(range(6)), back_small=list(range(6)), back_rich=list(range(6)), reuse2=[1],
                         borrow=[1], own=[0, 1, 2])),
        dict(bin='c15', cfg=['x64-rel', 'x86-rel'], tcfg=U4, scen=['reuse3'], cover=[1]),
        dict(bin='c15', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['drop_small', 'drop_rich', 'reuse2', 'borrow', 'refused'],
             covers=dict(drop_small=list(range(4)), drop_rich=list(range(4)), reuse2=[1], borrow=[1], refused=[1])),
    ]),
    'C16': prop('every address; every stack base and limit (guard pages of any size); fresh, suspended, running, finished and moved coroutines; '
                'owned, borrowed, twice borrowed and default stacks', [
        dict(bin='c16', cfg=ALL, scen=['owned', 'borrowed', 'twice_borrowed', 'guard_pages', 'two', 'default_stack'], cover=[1, 2]),
    ]),
    'C17': prop('traps on the first run and after 1 or 2 suspensions, at call depth 0 and 2, with every value of every register and of the '
                'stack pointer; 20 capture/result shapes; latest resumer main, coroutine or on_stack in every order of 3 resumes; recovery that '
                'uses coroutines and on_stack, traps again, or panics; two coroutines trapping in turn; all other memory compared', [
        dict(bin='c17', cfg=U4, scen=['shapes_a', 'shapes_b', 'shapes_align', 'both_intact', 'resumer', 'busy_closure', 'panic_out', 'handler'],
             covers=dict(shapes_a=list(range(8)) + [20, 21, 22], shapes_b=list(range(7)), shapes_align=list(range(5)), both_intact=[1], resumer=[0, 1, 2],
                         busy_closure=[0, 1, 2], panic_out=[0, 1], handler=[0, 1])),
        dict(bin='c17', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['shapes_a', 'both_intact', 'resumer', 'busy_closure', 'handler'],
             covers=dict(shapes_a=list(range(8)), both_intact=[1], resumer=[0, 1, 2], busy_closure=[0, 1, 2], handler=[0, 1])),
    ]),
    'C18': prop('builds without the unwind feature; panics of 3 kinds at call depth 0..2 after 0..2 suspensions, in on_stack, on_parent_stack, '
                'nested coroutines and recovery closures; coroutines dropped in 4 ways while suspended for the 1st to 3rd time at call depth 0..2; '
                'fresh, finished, reset coroutines with 3 shapes of captures', [
        dict(bin='c18', cfg=N4, scen=['panic_out', 'panic_closures', 'drop_suspended'], cover=[1]),
        dict(bin='c18', cfg=N4, scen=['unwind_refused', 'normal_small', 'normal_big', 'normal_align', 'caught_inside'],
             covers=dict(unwind_refused=[0, 1, 2], normal_small=list(range(6)), normal_big=list(range(6)), normal_align=list(range(6)), caught_inside=[1])),
    ]),
    'C19': prop('2 coroutines, every program of 4 (optimised builds 6, thorough 8) steps; 3 coroutines, 4 (5, thorough 7) steps; with on_stack '
                'nesting 3 (5, thorough 6); steps are resuming any coroutine from any context, suspending, returning, panicking, on_stack; '
                'chains of 3 and 6 coroutines entered at any link', [
        dict(bin='c19', cfg=U4, scen=['two4', 'two_nested3', 'three4', 'panics4', 'chain3', 'chain6'], cover=[1], max_paths=100000),
        dict(bin='c19', cfg=['x64-rel', 'x86-rel'], scen=['two6', 'three5', 'two_nested5'], tcfg=U4, cover=[1], max_paths=200000),
        dict(bin='c19', cfg=['x64-rel', 'x86-rel'], tier='thorough', scen=['two8', 'three7', 'three_nested6', 'panics6'], cover=[1], max_paths=2000000),
        dict(bin='c19', cfg=['x64-rel-nounwind', 'x86-dev-nounwind'], tcfg=N4, scen=['two4', 'two_nested3', 'three4', 'chain3'], cover=[1], max_paths=100000),
    ]),
}

# Every scenario of the unwind builds also runs with asm-unwind; further code generation modes on quick where they are cheap and matter
# most, and everywhere on thorough.
ASM_QUICK = {p: ['x64-rel-asm', 'x86-dev-asm'] for p in SPECS}
ASM_QUICK.update(C07=A4, C08=A4, C18=[], C10=[], C13=[], C14=[], C20=[], C16=['x64-rel-asm'])
VAR_QUICK = dict(C01=['x64-lto', 'x86-size'], C03=V8, C09=V8, C11=['x64-size', 'x86-lto'], C12=['x64-lto', 'x86-size'], C17=['x64-size', 'x86-lto'])
for _p, _s in SPECS.items():
    _new = []
    for _j in _s['jobs']:
        if 'x64-rel' not in _j['cfg'] and 'x64-rel' not in _j.get('tcfg', ()):
            continue
        _q = [c for c in ASM_QUICK[_p] + VAR_QUICK.get(_p, []) if c.split('-')[1] != 'dev' or 'x64-dev' in _j['cfg']]
        _t = ([] if _p in ('C10', 'C18', 'C13', 'C14', 'C20') else A4) + ([] if _p == 'C10' else V8)
        _k = dict(_j, cfg=_q or ['x64-size'], tcfg=_t)
        if not _q and _k.get('tier') != 'thorough':
            _k['tier'] = 'thorough'
        _new.append(_k)
    _s['jobs'] = _s['jobs'] + [k for k in _new if k['tcfg']]
    _s['configs'] = sorted({c for j in _s['jobs'] for c in list(j['cfg']) + list(j.get('tcfg', ()))})

# C21: the scenarios of the other properties on the other architectures
def _cross(archs, skip, small=()):
    out = []
    for q in sorted(SPECS):
        if q in skip:
            continue
        for j in SPECS[q]['jobs']:
            if j.get('tier') == 'thorough' or any(v in c for c in j['cfg'] for v in ('-lto', '-size', '-asm')):
                continue
            if q == 'C10':
                k = dict(j, cfg=[n + '-fp' for n in archs])
            elif q == 'C18':
                k = dict(j, cfg=[n + '-nounwind' for n in archs])
            elif 'x64-rel' in j['cfg']:
                k = dict(j, cfg=[n + '-rel' for n in archs], tcfg=[n + v for n in archs for v in ('-rel', '-size', '-asm', '-dev')])
            else:
                continue
            out.append(k)
            if q in ('C07', 'C08'):
                out.append(dict(j, cfg=[n + '-asm' for n in archs], tcfg=[]))
    return out


SPECS['C21'] = prop(
    'AArch64, RISC-V 64 and 32 (gc) and LoongArch64 Linux targets, optimised builds (thorough: also unoptimised, size-optimised, asm-unwind); '
    'the scenarios and bounds of C01-C12, C14, C15, C17-C19', [])
SPECS['C21']['jobs'] = _cross(CROSS, ('C13', 'C16', 'C20', 'C21', 'C22', 'C24'))
SPECS['C21']['assume'] = [
    'no emulator for these architectures is installed: a counterexample is confirmed by executing the machine code again in the encoding with '
    'every input concrete; completed paths are validated by running the same inputs natively on x86 and comparing the event logs (scenarios '
    'whose inputs are not register images)']
SPECS['C21']['configs'] = sorted({c for j in SPECS['C21']['jobs'] for c in list(j['cfg']) + list(j.get('tcfg', ()))})

WIN_ALL = ['w64-rel', 'w32-rel']
_j = []
for _k in _cross(WIN, ('C13', 'C14', 'C16', 'C20', 'C21', 'C22', 'C24')):
    # MSVC x86 has no unwind tables, Win64 no frame pointer chains
    if _k['bin'] in ('c09', 'c10'):
        _n = 'w64' if _k['bin'] == 'c09' else 'w32'
        _k = dict(_k, cfg=[c for c in _k['cfg'] if c.startswith(_n)], tcfg=[c for c in _k.get('tcfg', _k['cfg']) if c.startswith(_n)])
    _j.append(_k)
_j += [
    dict(bin='c22', cfg=WIN_ALL, tcfg=[n + v for n in WIN for v in ('-rel', '-asm', '-size', '-dev')],
         scen=['life1', 'life_big', 'calls', 'reset_elsewhere', 'nest', 'panics', 'forced', 'unstarted', 'default_size', 'default_default', 'default_run'],
         covers=dict(life1=list(range(9)) + [100], life_big=list(range(9)) + [100, 200, 201, 202], calls=list(range(16)), reset_elsewhere=[1], nest=[0, 1, 2],
                     panics=[0, 1, 2, 3], forced=[0, 1, 2, 3], unstarted=[0, 1, 2], default_size=[1, 2, 3, 4, 5], default_default=[1, 2, 3], default_run=[0, 1, 2, 5])),
    dict(bin='c22', cfg=['w64-asm', 'w32-asm'], tcfg=[], scen=['life1', 'panics', 'forced'], covers=dict(life1=list(range(9)), panics=[0, 1, 2, 3], forced=[0, 1, 2, 3])),
    dict(bin='c22', cfg=['w64-nounwind', 'w32-nounwind'], scen=['life1', 'calls', 'reset_elsewhere', 'nest'],
         covers=dict(life1=list(range(4)) + [100], calls=list(range(16)), reset_elsewhere=[1], nest=[0, 1, 2])),
]
SPECS['C22'] = prop(
    'x86_64 and i686 MSVC Windows targets, optimised builds (thorough: also unoptimised, size-optimised, asm-unwind); the scenarios and bounds '
    'of C01-C08, C11, C12, C15, C17-C19, C09 on x86_64, C10 on i686; C22\'s own: every value of the four words a stack reports, new values of '
    'StackLimit and GuaranteedStackBytes at up to 20 points of a run, 9 endings after 0..2 suspensions, 16 pairs of calls on other stacks', _j)
SPECS['C22']['assume'] = [
    'the C runtime, the system calls and exception dispatching (x64 unwind tables and __CxxFrameHandler3 data, x86 handler chain) are modelled; no '
    'Windows or emulator is installed: a counterexample is confirmed by executing the machine code again in the encoding with every input '
    'concrete; completed paths are validated by running the same inputs natively on Linux x86 and comparing the event logs']
SPECS['C22']['configs'] = sorted({c for j in SPECS['C22']['jobs'] for c in list(j['cfg']) + list(j.get('tcfg', ()))})
