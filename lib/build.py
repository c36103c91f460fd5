#!/usr/bin/env python3
"""Builds the check drivers from /repo's current working tree (incrementally).

usage: build.py TARGET...     (drv_common, drv_pipe, ..., or 'all')

Everything goes to /verif/build (git-ignored).  ninja decides by mtime, ccache
(with its cache inside /verif/build) by content; a source whose content changed
without getting a newer mtime is touched first (see _guard).
"""
import json, os, subprocess, sys, hashlib, time, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('PSI_REPO', '/repo')
B = os.environ.get('PSI_BUILD', os.path.join(HERE, 'build'))
GEN = os.path.join(B, 'gen')
M = json.load(open(os.path.join(HERE, 'lib', 'modules.json')))

ASAN = '-fsanitize=address -fno-omit-frame-pointer'
CXXBASE = ('-g1 -O1 -w -include iostream -include algorithm '
           '-DBOOST_TIMER_ENABLE_DEPRECATED -D_GLIBCXX_ASSERTIONS -fPIC '
           '-fno-access-control ' + ASAN)
CBASE = '-g1 -O1 -w -fPIC -DNDEBUG ' + ASAN
BOOSTLIBS = ('-lboost_program_options -lboost_graph -lboost_regex -lboost_serialization '
             '-lboost_filesystem -lboost_system -lboost_thread -lboost_atomic -lboost_iostreams')
SYSLIBS = BOOSTLIBS + (' -lpcre -lpcrecpp -lcmph -lz -llog4cpp -lmagic -ldl -lpthread '
    '-Wl,-rpath,/usr/lib/jvm/java-17-openjdk-amd64/lib/server '
    '-L/usr/lib/jvm/java-17-openjdk-amd64/lib/server -ljvm /usr/lib/x86_64-linux-gnu/libperl.so.5.38')

EXTRA_INC = {
    'server': ['server', 'server/mpfd-parser', 'server/server', 'sundown', 'sundown/cpp', 'sundown/html', 'sundown/src'],
    'mpfd-parser': ['server', 'server/mpfd-parser', 'server/server'],
    'http-server': ['server', 'server/mpfd-parser', 'server/server'],
    'sundown': ['sundown', 'sundown/cpp', 'sundown/html', 'sundown/src'],
    'fex': ['fex', 'fex/7z_C', 'fex/fex', 'fex/zlib'],
    'tiniconv': ['tiniconv', 'tiniconv/encdec'],
    'uchardet': ['uchardet', 'uchardet/src'],
}
COMMON = ['common', 'common-plugins', 'fex', 'tiniconv', 'uchardet', 'utf8case']
FORMATS = [m for m in M['modules'] if m.startswith('formats-') and not m.endswith('-plugin')]
TOOLS = [m for m in M['modules'] if m.startswith('tools-') and not m.endswith('-plugin')]
ALL = ['framework', 'sundown', 'maxent'] + FORMATS + TOOLS + COMMON
PLUGINS = {
    'libpsitoolkit_tools-spellcheckers-aspell-plugin.so': ('tools-spellcheckers-aspell-plugin', '-laspell'),
    'libpsitoolkit_tools-normalizers-openfst-plugin.so': ('tools-normalizers-openfst-plugin', '-lfst -lfstfar'),
}
# driver -> (sources, modules to link)
DRIVERS = {
    'drv_common': (['drv_common.cpp'], [m for m in FORMATS if m in (
        'formats-psi', 'formats-utt', 'formats-txt', 'formats-simple', 'formats-json-simple',
        'formats-bracketing', 'formats-dot', 'formats-phrases', 'formats-morphology')] + COMMON),
    'drv_tools': (['drv_tools.cpp'], ALL),
    'drv_pipe': (['drv_pipe.cpp'], ALL),
    'drv_server': (['drv_server.cpp'], ['server', 'http-server', 'mpfd-parser', 'formats-perl-simple'] + ALL),
}


def write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def esc(s):
    return s.replace(' ', '$ ').replace(':', '$:')


def config_hpp():
    return open(os.path.join(HERE, 'lib', 'config.hpp')).read()


def generate():
    os.makedirs(GEN, exist_ok=True)
    write(os.path.join(GEN, 'config.hpp'), config_hpp())
    write(os.path.join(GEN, 'git_info.cpp'),
          'const char* g_GIT_SHA1 = "none";\nconst char* g_GIT_LAST_DATE = "none";\n')
    incs = ['$R' if i == '$R' else i for i in M['incs']]
    iflags = ' '.join('-I' + i for i in incs) + ' -I' + GEN + ' -I$R/fex/fex -I$R/tiniconv -I$R/uchardet/src -I$R/utf8'
    o = ['R = ' + R, 'GEN = ' + GEN, 'builddir = ' + B, 'incs = ' + iflags, 'cxxflags = ' + CXXBASE, 'cflags = ' + CBASE,
         '''
rule cxx
  command = ccache g++ $cxxflags $std $xinc $incs -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $in
rule cc
  command = ccache gcc $cflags $xinc $incs -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CC $in
rule ar
  command = rm -f $out && ar rcsT $out $in
  description = AR $out
rule link
  command = g++ %s -rdynamic -o $out $objs -Wl,--start-group $libs -Wl,--end-group $sys
  description = LINK $out
rule solink
  command = g++ -shared %s -o $out $in $sys
  description = SOLINK $out
rule flex
  command = flex -P $pfx -o $out $in
rule bison
  command = bison $opt -p $pfx -o $dst $in
''' % (ASAN, ASAN)]
    g = '$R/tools/parsers/gobio/translator/'
    t = '$R/tools/translators/transferer/'
    o += ['build $GEN/lex.grlex.cpp: flex %slex.grlex.lpp' % g, '  pfx = grlex',
          'build $GEN/grparser.bis.cpp: bison %sgrparser.y' % g, '  pfx = grparser', '  dst = $GEN/grparser.bis.cpp',
          'build $GEN/lex.trlex.cpp: flex %slex.trlex.lpp' % t, '  pfx = yy',
          'build $GEN/trparser.tab.cpp $GEN/trparser.tab.hpp: bison %strparser.y' % t,
          '  pfx = trparser', '  opt = -d', '  dst = $GEN/trparser.tab.cpp']
    # sources added to the tree since the list was recorded go to the module of their directory
    known = set(M['known'])
    dirmod = {}
    for m, fs in M['modules'].items():
        for f in fs:
            if not f.startswith('@'):
                dirmod.setdefault(os.path.dirname(f), m)
    extra = {}
    dirmod.pop('tests', None)
    for d, m in dirmod.items():
        for f in sorted(glob.glob(os.path.join(R, d, '*.c*'))):
            rel = os.path.relpath(f, R)
            if rel.endswith(('.c', '.cpp', '.cc')) and rel not in known \
                    and not rel.endswith(('lex.grlex.cpp', 'grparser.bis.cpp', 'git_info.cpp')):
                extra.setdefault(m, []).append(rel)
    for m, fs in M['modules'].items():
        objs = []
        for f in fs + extra.get(m, []):
            if f.startswith('@'):
                src = '$GEN/' + f[1:]
                obj = '%s/obj/%s/%s.o' % (B, m, f[1:])
                srcdir = {'@lex.grlex.cpp': g, '@grparser.bis.cpp': g}.get(f, t if 'tr' in f else '$R/framework/')
            else:
                src = '$R/' + f
                if not os.path.exists(os.path.join(R, f)):
                    continue
                obj = '%s/obj/%s/%s.o' % (B, m, f)
                srcdir = '$R/' + os.path.dirname(f)
            x = ' '.join('-I$R/' + i for i in EXTRA_INC.get(m, [])) + ' -I' + srcdir
            if m == 'tools-normalizers-openfst-plugin':
                x += ' -include %s/lib/openfst_compat.hpp' % HERE
            std = '-std=gnu++98' if m == 'tools-translators-bonsai' else '-std=gnu++14'
            if m == 'fex' or m == 'sundown':
                x += ' -DNDEBUG'
            odep = ' | $GEN/trparser.tab.hpp' if m == 'tools-translators-transferer' else ''
            o += ['build %s: %s %s%s' % (obj, 'cc' if f.endswith('.c') else 'cxx', src, odep),
                  '  xinc = ' + x, '  std = ' + std]
            objs.append(obj)
        if m.endswith('-plugin'):
            for so, (pm, libs) in PLUGINS.items():
                if pm == m:
                    o += ['build %s/plugins/%s: solink %s' % (B, so, ' '.join(objs)), '  sys = ' + libs]
        else:
            o += ['build %s/lib/%s.a: ar %s' % (B, m, ' '.join(objs))]
    D = os.path.join(HERE, 'drivers')
    for d, (srcs, mods) in DRIVERS.items():
        srcs = [s for s in srcs if os.path.exists(os.path.join(D, s))]
        parts = sorted(glob.glob(os.path.join(D, d + '_*.cpp')))
        srcs = srcs + [os.path.basename(p) for p in parts]
        if not srcs:
            continue
        objs = []
        for s in srcs:
            obj = '%s/obj/%s/%s.o' % (B, d, s)
            o += ['build %s: cxx %s/%s' % (obj, D, s),
                  '  std = -std=gnu++14',
                  '  xinc = -I%s ' % D + ' '.join('-I$R/' + i for k in ('server', 'fex', 'tiniconv') for i in EXTRA_INC[k])]
            objs.append(obj)
        libs = ['%s/lib/%s.a' % (B, m) for m in dict.fromkeys(mods)]
        libobjs = ' '.join(libs)
        o += ['build %s/%s: link %s %s' % (B, d, ' '.join(objs), libobjs),
              '  objs = ' + ' '.join(objs), '  libs = ' + libobjs, '  sys = ' + SYSLIBS]
    o += ['build plugins: phony ' + ' '.join('%s/plugins/%s' % (B, p) for p in PLUGINS)]
    text = '\n'.join(o) + '\n'
    write(os.path.join(B, 'build.ninja'), text)


def _guard():
    """Touch a source whose content changed although its mtime did not move forward."""
    p = os.path.join(B, 'hashes.json')
    old = json.load(open(p)) if os.path.exists(p) else {}
    out = subprocess.run(['git', '-C', R, 'ls-files', '-co', '--exclude-standard', '--', '*.c', '*.cc', '*.cpp', '*.h', '*.hpp', '*.tpl', '*.y', '*.lpp',
                          '*.l', '*.ipp', '*.inc', '*.hh'],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().split('\n')
    files = [f for f in out if f]
    if not files:
        for dp, dn, fn in os.walk(R):
            if dp == R and 'build' in dn:
                dn.remove('build')
            files += [os.path.relpath(os.path.join(dp, f), R) for f in fn
                      if f.endswith(('.c', '.cc', '.cpp', '.h', '.hpp', '.tpl', '.y', '.lpp', '.l'))]
    new = {}
    for f in files:
        a = os.path.join(R, f)
        try:
            st = os.stat(a)
            h = hashlib.sha1(open(a, 'rb').read()).hexdigest()
        except OSError:
            continue
        m = st.st_mtime_ns
        if f in old and old[f][0] != h and m <= old[f][1]:
            os.utime(a)
            m = os.stat(a).st_mtime_ns
        new[f] = [h, max(m, old.get(f, [0, 0])[1])]
    tmp = p + '.tmp'
    json.dump(new, open(tmp, 'w'))
    os.replace(tmp, p)


def build(targets, quiet=True):
    os.makedirs(B, exist_ok=True)
    import fcntl
    lock = open(os.path.join(B, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    _guard()
    generate()
    env = dict(os.environ, CCACHE_DIR=os.path.join(B, 'ccache'), CCACHE_MAXSIZE='6G',
               CCACHE_COMPRESS='1', CCACHE_NOHASHDIR='1', LC_ALL='C.UTF-8')
    env.pop('CXXFLAGS', None)
    env.pop('CFLAGS', None)
    paths = [t if t == 'plugins' else os.path.join(B, t) for t in targets]
    r = subprocess.run(['ninja', '-C', B, '-j', str(min(8, os.cpu_count() or 8)), '-k', '20'] + paths, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    lock.close()
    if r.returncode:
        sys.stderr.write(r.stdout.decode('utf-8', 'replace')[-6000:])
        return False
    if not quiet:
        print(r.stdout.decode('utf-8', 'replace')[-300:])
    return True


if __name__ == '__main__':
    t = sys.argv[1:]
    if not t or t == ['all']:
        t = [d for d in DRIVERS if os.path.exists(os.path.join(HERE, 'drivers', d + '.cpp'))] + ['plugins']
    s = time.time()
    ok = build(t, quiet=False)
    print('build', 'ok' if ok else 'FAILED', round(time.time() - s, 1), 's')
    sys.exit(0 if ok else 1)
