"""Mechanical extraction: clang's typed AST (JSON) of the current /repo sources.

One translation unit is generated that includes every src/**/*.cpp and every header, plus explicit
instantiations of the class templates. Nothing is copied or rewritten: the verifier executes the AST.
"""
import glob, json, os, subprocess, sys, tempfile, hashlib
REPO = os.environ.get('POOYA_REPO', '/repo')
INST = [
 "template class DelayT<double>", "template class DelayT<Array>",
 "template class AddT<double>", "template class AddT<Array>",
 "template class MultiplyT<double>", "template class MultiplyT<Array>",
 "template class TriggeredIntegratorT<double>", "template class TriggeredIntegratorT<Array>",
 "template class IntegratorT<double>", "template class IntegratorT<Array>",
 "template class DerivativeT<double>", "template class DerivativeT<Array>",
 "template class SubtractT<double>", "template class SubtractT<Array>",
 "template class DivideT<double>", "template class DivideT<Array>",
 "template class MemoryT<double>", "template class MemoryT<Array>", "template class MemoryT<int>", "template class MemoryT<bool>",
 "template class PipeT<double>", "template class PipeT<Array>", "template class PipeT<int>", "template class PipeT<bool>",
 "template class GainT<double,double>", "template class GainT<Array,double>", "template class GainT<int,int>",
 "template class ConstT<double>", "template class ConstT<Array>",
 "template class SourceT<double>", "template class SourceT<Array>", "template class SourceT<int>",
 "template class SISOFunctionT<double>", "template class SISOFunctionT<Array>",
 "template class SOFunctionT<double>", "template class SOFunctionT<Array>",
 "template class InitialValueT<double>", "template class InitialValueT<Array>",
 "inline void pooya_verif_default_arguments() { Integrator i; TriggeredIntegrator t; Add a; Multiply m; Derivative d; }",
 "template class SingleInputT<double>", "template class SingleInputT<Array>", "template class SingleInputT<int>", "template class SingleInputT<bool>",
 "template class SignalT<double>", "template class SignalT<int>", "template class SignalT<bool>", "template class SignalT<Array>", "template class SignalT<BusSpec>",
 "template ValidName ValidName::operator|<std::string>(const std::string&) const",
 "template ValidName ValidName::operator/<std::string>(const std::string&) const",
 "template ValidName ValidName::operator|<ValidName>(const ValidName&) const",
 "template ValidName ValidName::operator/<ValidName>(const ValidName&) const",
 "template Bus::Bus(std::initializer_list<std::pair<std::string, Signal>> l, std::string_view name)",
 "template Signal Block::io_at<std::size_t>(const Bus&, std::size_t, std::optional<uint32_t>)",
 "template Signal Block::input<std::size_t>(std::size_t)", "template Signal Block::output<std::size_t>(std::size_t)",
 "template Signal Block::input<std::string>(std::string)", "template Signal Block::output<std::string>(std::string)",
]
FLAGS = ['-std=c++17', '-DEIGEN_MPL_ONLY', '-DEIGEN_NO_DEBUG', '-iquote', '.', '-isystem', '/usr/include/eigen3']

class ExtractError(Exception):
    pass

def sources():
    cpps = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    hpps = sorted(glob.glob(REPO + '/src/**/*.hpp', recursive=True))
    rel = lambda p: os.path.relpath(p, REPO)
    return [rel(p) for p in cpps], [rel(p) for p in hpps if not p.endswith('gp-ios.hpp')]

def sources_digest():
    h = hashlib.sha256()
    for group in sources():
        for p in group:
            h.update(p.encode()); h.update(open(os.path.join(REPO, p), 'rb').read())
    return h.hexdigest()

def make_tu():
    cpps, hpps = sources()
    t = ''.join('#include "%s"\n' % p for p in cpps + hpps)
    return t

def _dump(tu_text, tmp):
    tu = os.path.join(tmp, 'all.cpp')
    open(tu, 'w').write(tu_text)
    out = os.path.join(tmp, 'ast.json')
    with open(out, 'w') as f:
        r = subprocess.run(['clang++', *FLAGS, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
                            '-ast-dump-filter=pooya', tu], cwd=REPO, stdout=f, stderr=subprocess.PIPE, text=True)
    return r, out

def load_ast():
    """returns (list of JSON docs, dropped instantiations)"""
    import tempfile, shutil, re
    tmp = tempfile.mkdtemp(prefix='dvast')
    try:
        base = make_tu()
        inst = list(INST); dropped = []
        while True:
            lines = ['namespace pooya {'] + [i + ';' for i in inst] + ['}']
            text = base + '\n'.join(lines) + '\n'
            first = base.count('\n') + 2
            r, out = _dump(text, tmp)
            if r.returncode == 0:
                break
            # instantiations that do not compile are dropped (and reported), the sources themselves must compile
            bad = set(int(m) for m in re.findall(r'all\.cpp:(\d+):\d+: note: in instantiation', r.stderr))
            bad |= set(int(m) for m in re.findall(r'all\.cpp:(\d+):\d+: error', r.stderr))
            idx = sorted({b - first for b in bad if 0 <= b - first < len(inst)}, reverse=True)
            if not idx:
                raise ExtractError('clang rejects the sources:\n' + r.stderr[:3000])
            for i in idx:
                dropped.append(inst.pop(i))
        docs = []
        dec = json.JSONDecoder()
        txt = open(out).read()
        pos = 0
        n = len(txt)
        while pos < n:
            if txt[pos] == '{':
                o, pos = dec.raw_decode(txt, pos)
                docs.append(o)
            else:
                e = txt.find('\n', pos)
                if e < 0: break
                pos = e + 1
        return docs, dropped
    finally:
        shutil.rmtree(tmp)

if __name__ == '__main__':
    import time
    t = time.time(); d, dr = load_ast(); print(len(d), dr, time.time() - t)
    json.dump(d, open('/tmp/w/docs.json', 'w'))
