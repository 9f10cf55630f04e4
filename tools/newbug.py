"""newbug.py SPEC.py: SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], kind='H'|'L'|'M', demo, np)].
Writes seeded/<id>/ from each (patch.diff via a scratch edit of /repo, restored at once)."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
HDR = '''#!/bin/bash
# compiles demo.cpp against /repo and runs it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
'''
INC = '-I$R/src -I$R/_build/src/grid -I$R/_build/src/grid/iteration'
SH = {
 'H': HDR + 'g++ -std=c++17 -w -O1 -fopenmp -DKOKKOS_DEPENDENCE -I/usr/include/trilinos ' + INC + ' "$H/demo.cpp" -o "$T/demo" -ltrilinos_kokkoscore || exit 3\ncd "$T" && timeout 60 ./demo\n',
 'L': HDR + 'mpicxx -std=c++17 -w -O0 -fopenmp -DKOKKOS_DEPENDENCE -I/usr/include/hdf5/openmpi -I/usr/include/trilinos ' + INC + ' "$H/demo.cpp" $R/_build/libschnek.so -Wl,-rpath,$R/_build -o "$T/demo" -ltrilinos_kokkoscore || exit 3\ncd "$T" && OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 HOME=$T timeout 60 ./demo\n',
 'M': HDR + 'mpicxx -std=c++17 -w -O0 -fopenmp -DKOKKOS_DEPENDENCE -I/usr/include/hdf5/openmpi -I/usr/include/trilinos ' + INC + ' "$H/demo.cpp" $R/_build/libschnek.so -Wl,-rpath,$R/_build -o "$T/demo" -ltrilinos_kokkoscore || exit 3\ncd "$T" && OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 HOME=$T TMPDIR=/tmp timeout 120 mpirun --oversubscribe -np %(np)d ./demo\n',
}
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0, 'repo dirty'
    d = '/verif/seeded/' + b['id']
    try:
        for f, old, new in b['edits']:
            assert not f.endswith('.t')
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/demo.cpp', 'w').write(b['demo'].lstrip())
    sh = SH[b['kind']]
    open(d + '/demo.sh', 'w').write(sh % {'np': b.get('np', 3)} if b['kind'] == 'M' else sh)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'))
    print('wrote', b['id'])
