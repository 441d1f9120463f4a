"""What each property's check is made of: harness sources and build flags, one entry per part."""
import os
REPO = os.environ.get('PO_REPO', '/repo')
COMMON = ['the C++ standard library and the installed Boost headers behave as documented',
          'exhaustive within the listed spaces; nothing is claimed outside the listed alphabets and bounds']


def cm(prop, **kw):
    d = dict(harness=['cmdline.cpp'], flags=['-O1', '-DPROP=%d' % prop], assumptions=COMMON)
    d.update(kw)
    return [d]


CHECKS = {
    'C09': cm(9, harness=['cmdmisc.cpp']), 'C10': cm(10, harness=['cmdmisc.cpp']), 'C28': cm(28, harness=['cmdmisc.cpp']),
    'C12': cm(12, harness=['config.cpp']), 'C13': cm(13, harness=['config.cpp']), 'C15': cm(15, harness=['config.cpp']),
    'C14': cm(14, harness=['readfault.cpp'], ldflags=['-ldl'], assumptions=COMMON + ['the standard library reads files through fopen and read, which the harness replaces']),
    'C16': cm(16, harness=['store.cpp']),
    'C17': cm(17, harness=['store.cpp']),
    'C19': cm(19, harness=['store.cpp']),
    'C20': cm(20, harness=['store.cpp']),
    'C30': cm(30, harness=['store.cpp']),
    'C08': cm(8, harness=['robust.cpp'], flags=['-O1', '-g', '-DPROP=8', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'], hflags=['-DMC_WINMAIN="%s/src/winmain.cpp"' % REPO],
              assumptions=COMMON + ['AddressSanitizer and UndefinedBehaviorSanitizer report the memory and arithmetic errors of an execution']),
    'C26': [dict(harness=['threads.cpp', 'threads_ops.cpp'], plain=['threads.cpp'], flags=['-O0', '-DPROP=26'], hflags=['-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DMC_WINMAIN="%s/src/winmain.cpp"' % REPO], lflags=['-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0'],
                 ldflags=['-Wl,' + ','.join('--wrap=' + f for f in 'memcpy memmove memset memcmp strlen memchr pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once'.split())],
                 assumptions=COMMON + ['code inside libstdc++.so and libc is thread safe as documented; memory order effects weaker than sequential consistency are not explored, unordered accesses are reported as races instead']),
            dict(harness=['nest.cpp', 'threads_ops.cpp'], flags=['-O1', '-DPROP=26'], hflags=['-DMC_WINMAIN="%s/src/winmain.cpp"' % REPO], assumptions=COMMON)],
    'C29': cm(29, harness=['fault.cpp'], hflags=['-DMC_WINMAIN="%s/src/winmain.cpp"' % REPO]),
    'C31': cm(31, harness=['own.cpp']),
    'C32': cm(32, harness=['own.cpp'], flags=['-O1', '-g', '-DPROP=32', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
              assumptions=COMMON + ['AddressSanitizer reports a use of memory after it was released']),
    'C35': cm(35, harness=['semantic.cpp']), 'C36': cm(36, harness=['pure.cpp']),
    'C33': cm(33, harness=['settings.cpp']), 'C34': cm(34, harness=['settings.cpp']),
    'C21': cm(21, harness=['help.cpp']), 'C22': cm(22, harness=['help.cpp']),
    'C18': cm(18, harness=['value.cpp']),
    'C11': cm(11, harness=['wide.cpp']),
    'C23': cm(23, harness=['text.cpp']), 'C25': cm(25, harness=['text.cpp']),
    'C24': cm(24, harness=['text.cpp'], hflags=['-DMC_WINMAIN="%s/src/winmain.cpp"' % REPO]),
    'C01': cm(1), 'C02': cm(2, harness=['names.cpp']), 'C27': cm(27, harness=['names.cpp']), 'C03': cm(3), 'C04': cm(4), 'C05': cm(5), 'C06': cm(6), 'C07': cm(7),
}
