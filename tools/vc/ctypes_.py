"""Parser for canonical C++ type strings printed by cxxast."""
import re
from functools import lru_cache

class T:
    __slots__ = ('name', 'args', 'const', 'quals', 'ref', 'raw', 'arr')
    def __init__(self, name, args=(), const=False, quals=(), ref='', raw='', arr=None):
        self.name, self.args, self.const, self.quals, self.ref, self.raw, self.arr = name, list(args), const, list(quals), ref, raw, arr
    def is_ptr(self):
        return bool(self.quals)
    def pointee(self):
        t = T(self.name, self.args, self.const, self.quals[:-1], '', self.raw)
        return t
    def noref(self):
        return T(self.name, self.args, self.const, self.quals, '', self.raw, self.arr)
    def __repr__(self):
        return f"T({self.name}{self.args or ''}{'*'*len(self.quals)}{self.ref})"

def split_args(s):
    out, depth, cur, par = [], 0, '', 0
    for i, c in enumerate(s):
        if c == '<': depth += 1
        elif c == '>' and s[i-1] != '-': depth -= 1
        elif c in '([': par += 1
        elif c in ')]': par -= 1
        if c == ',' and depth == 0 and par == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    if cur.strip(): out.append(cur.strip())
    return out

@lru_cache(maxsize=None)
def parse(s):
    raw = s = s.strip()
    ref = ''
    while s.endswith('&'):
        ref += '&'; s = s[:-1].strip()
    quals = []
    while True:
        if s.endswith('*const'): quals.append('*'); s = s[:-6].strip()
        elif s.endswith('* const'): quals.append('*'); s = s[:-7].strip()
        elif s.endswith('*'): quals.append('*'); s = s[:-1].strip()
        elif s.endswith('*__restrict'): quals.append('*'); s = s[:-11].strip()
        else: break
    arr = None
    m = re.match(r'^(.*)\[(\d*)\]$', s)
    if m:
        arr = m.group(2); s = m.group(1).strip()
    const = False
    if s.startswith('const '):
        const = True; s = s[6:].strip()
    if s.startswith('volatile '): s = s[9:].strip()
    if s.startswith('(') or (s.endswith(')') and '(' in s):
        return T(s, [], const, quals, ref, raw, arr)
    # template args: find the last top-level '<...>' at the end
    if s.endswith('>'):
        depth = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == '>': depth += 1
            elif s[i] == '<':
                depth -= 1
                if depth == 0: break
        name, args = s[:i], split_args(s[i+1:-1])
        return T(name, [parse(a) for a in args], const, quals, ref, raw, arr)
    return T(s, [], const, quals, ref, raw, arr)

INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False),
    'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
    'unsigned long long': (64, False), 'wchar_t': (32, True), 'char16_t': (16, False), 'char32_t': (32, False), '__int128': (128, True),
    'unsigned __int128': (128, False),
}
STRS = {'std::basic_string', 'std::basic_string_view', 'llvm::StringRef', 'llvm::SmallString'}
VECS = {'std::vector', 'llvm::SmallVector', 'llvm::SmallVectorImpl', 'llvm::ArrayRef', 'std::initializer_list', 'std::deque', 'std::list', 'std::array', 'llvm::MutableArrayRef', 'std::stack', 'std::queue'}
MMAPS = {'std::multimap', 'std::unordered_multimap'}
MAPS = {'std::unordered_map', 'std::map', 'llvm::DenseMap', 'llvm::StringMap'}
SETS = {'std::set', 'std::unordered_set', 'llvm::SmallSet', 'llvm::SmallPtrSet', 'llvm::DenseSet'}
