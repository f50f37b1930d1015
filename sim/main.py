"""Command line: check <id> [quick|thorough] | replay <file> | selftest <id> [n]"""
import os
import sys

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
# numpy's AVX512 loops pick a vector or a scalar implementation depending on how
# far apart the operands happen to lie in memory, with results that differ in
# the last bit: memory addresses would be a source of nondeterminism
os.environ['NPY_DISABLE_CPU_FEATURES'] = 'AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL'
if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main(a):
    import warnings
    warnings.simplefilter('ignore')
    from sim import engine
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a[0] == 'check':
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return engine.check(a[1], tier, seed)
    if a[0] == 'replay':
        return engine.replay(a[1])
    if a[0] == 'exec':
        return engine.exec_cfgs(a[1])
    if a[0] == 'selftest':
        return engine.selftest(a[1], int(a[2]) if len(a) > 2 else 50, seed)
    raise SystemExit('unknown command %r' % a)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
