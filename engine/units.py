"""The translation units handed to the frontend, and running the frontend on /repo's current source."""
import os, subprocess, json, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PDAAAL_REPO', '/repo')
FRONT = os.path.join(VERIF, 'frontend', 'pdafront')
UNITS = ['values', 'automata', 'solver', 'cegar', 'nfaparser', 'bin']
# which source files a unit answers for (a function found in several units is taken from the first)
FILES = {
 'values': r'^unit$|include/pdaaal/(Weight|AutomatonPath|utils/(fut_set|vector_set|more_algorithms|vector_printer|flags|ptrie_interface))\.h$',
 'automata': r'include/pdaaal/(NFA|internal/(PAutomaton|PAutomatonAlgorithms|PdaSaturation|PDA)|utils/workset)\.h$',
 'solver': r'include/pdaaal/(PAutomaton|PAutomatonProduct|PDA|PDAFactory|Solver|SolverInstance|internal/(PDA|PAutomaton|Reducer|PdaSaturation))\.h$',
 'cegar': r'include/pdaaal/(cegar/\w+|NFA|utils/ptrie_interface)\.h$',
 'nfaparser': r'include/pdaaal/(parsing/\w+\.(h|cpp)|internal/\w+\.cpp)$',
 'bin': r'(pdaaal-bin/.*|include/pdaaal/(utils/(SaxHandlerHelpers|flags)|PDA|PAutomaton|PAutomatonProduct|parsing/NfaParserGrammar)\.h)$',
}

def build_frontend():
    src = os.path.join(VERIF, 'frontend', 'pdafront.cpp')
    if os.path.exists(FRONT) and os.path.getmtime(FRONT) >= os.path.getmtime(src): return
    tmp = FRONT + '.%d' % os.getpid()
    subprocess.run(['clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'], check=True)
    os.replace(tmp, FRONT)

def start_frontend(unit, outdir):
    out = os.path.join(outdir, unit + '.json')
    cmd = [FRONT, REPO + '/src', out, os.path.join(VERIF, 'units', unit + '.cpp'), '--', '-std=gnu++20', '-w', '-DNDEBUG', '-I' + VERIF + '/stub', '-I' + VERIF + '/stub/gen', '-I' + REPO + '/src/include', '-I' + REPO + '/src/pdaaal-bin', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(outdir, unit + '.err'), 'w')), out

def errors(outdir, unit):
    try: return [l for l in open(os.path.join(outdir, unit + '.err')) if ' error: ' in l]
    except OSError: return []
