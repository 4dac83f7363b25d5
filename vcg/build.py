"""Compile a harness TU that includes /repo's headers to IR and dump it (every run, from the working tree)."""
import os, subprocess, hashlib, tempfile, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
CONFIGS = {
    'scalar': ['-DJS_DISABLE_SIMD'],
    'sse2': [],
    'sse42': ['-msse4.2'],
    'avx2': ['-mavx2', '-mbmi'],
    'neon': ['--target=aarch64-linux-gnu'],
}
def work():
    d = os.environ.get('VCG_WORK')
    if not d:
        d = os.path.join(os.path.dirname(HERE), 'build')
    os.makedirs(d, exist_ok=True)
    return d
def irdump():
    exe = os.path.join(work(), 'irdump')
    src = os.path.join(HERE, 'irdump.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        tmp = exe + '.%d' % os.getpid()
        subprocess.check_call(['clang++', '-O1', '-std=c++17', '-fno-rtti', src, '-I/usr/include/llvm-18', '-I/usr/lib/llvm-18/include',
                               '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-o', tmp])
        os.replace(tmp, exe)
    return exe
def compile_ir(src, config, extra=(), std='c++17', passes='sroa,simplifycfg,instsimplify,early-cse'):
    """returns path of the JSON dump"""
    exe = irdump()
    d = tempfile.mkdtemp(prefix='ir.', dir=work())
    bc = os.path.join(d, 'a.bc'); bc2 = os.path.join(d, 'b.bc'); js = os.path.join(d, 'a.json')
    cmd = ['clang++', '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-inline', '-g',
           '-fno-limit-debug-info', '-fno-discard-value-names', '-Wno-everything', '-fno-vectorize', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, '..', 'harness')]
    cmd += CONFIGS[config] + list(extra) + ['-emit-llvm', '-c', src, '-o', bc]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise RuntimeError('compile failed: ' + p.stderr[:4000])
    subprocess.check_call(['opt', '-passes=' + passes, bc, '-o', bc2])
    subprocess.check_call([exe, bc2, js])
    os.unlink(bc); os.unlink(bc2)
    return js
