"""Build igakit from /repo's working tree into a scratch package.

The Python sources are copied verbatim, the Fortran extension is rebuilt from
igalib.f90/igalib.pyf with f2py + gfortran.  Nothing in /repo is written.

  flavour 'fast': -O2                      (what a user runs)
  flavour 'chk' : -O1 -fcheck=bounds -finit-real=snan   (run-time assertion build)
"""
import glob, os, shutil, subprocess, sys, sysconfig, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'

FLAGS = {
    'fast': ['-O2'],
    'chk':  ['-O1', '-g', '-fcheck=bounds,do', '-finit-real=snan', '-finit-integer=-77777'],
}


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=300)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


_probe = """
import numpy, numpy.f2py, sysconfig, json
print(json.dumps([numpy.get_include(), numpy.f2py.get_include(),
                  sysconfig.get_path('include'), sysconfig.get_config_var('EXT_SUFFIX')]))
"""


def build(dest, flavours=('fast', 'chk')):
    """Create dest/<flavour>/igakit/... ; returns {flavour: dir to put on sys.path}."""
    import json
    env_info = json.loads(_run([VENV, '-c', _probe], dest))
    np_inc, f2py_inc, py_inc, suffix = env_info
    src = os.path.join(REPO, 'igakit')
    gen = os.path.join(dest, 'gen')
    os.makedirs(gen)
    shutil.copy(os.path.join(src, 'igalib.f90'), gen)
    shutil.copy(os.path.join(src, 'igalib.pyf'), gen)
    _run([VENV, '-m', 'numpy.f2py', '--build-dir', gen, 'igalib.pyf'], gen)
    inc = ['-I' + np_inc, '-I' + f2py_inc, '-I' + py_inc]
    common = ['-fPIC', '-w']
    for f in ('igalibmodule.c', os.path.join(f2py_inc, 'fortranobject.c')):
        obj = os.path.join(gen, os.path.basename(f)[:-2] + '.o')
        _run(['gcc', '-O1', '-c', f, '-o', obj] + common + inc, gen)
    out = {}
    procs = []
    for fl in flavours:
        top = os.path.join(dest, fl)
        pkg = os.path.join(top, 'igakit')
        os.makedirs(pkg)
        for f in glob.glob(os.path.join(src, '*.py')):
            shutil.copy(f, pkg)
        od = os.path.join(gen, fl)
        os.makedirs(od)
        cmd = ('cd %s && gfortran %s -J%s -c ../igalib.f90 -o igalib.o -fPIC -w && '
               'gfortran %s -J%s -I%s -c ../igalib-f2pywrappers2.f90 -o wrap.o -fPIC -w && '
               'gfortran -shared -o %s igalib.o wrap.o ../igalibmodule.o ../fortranobject.o'
               % (od, ' '.join(FLAGS[fl]), od, ' '.join(FLAGS[fl]), od, od,
                  os.path.join(pkg, 'igalib' + suffix)))
        procs.append((fl, subprocess.Popen(['bash', '-c', cmd], stdout=subprocess.PIPE,
                                           stderr=subprocess.STDOUT, text=True)))
        out[fl] = top
    for fl, p in procs:
        o, _ = p.communicate(timeout=300)
        if p.returncode:
            raise BuildError('%s: %s' % (fl, o[-4000:]))
    shutil.rmtree(gen)
    return out


if __name__ == '__main__':
    d = tempfile.mkdtemp(prefix='igakit-verif-')
    print(build(d))
