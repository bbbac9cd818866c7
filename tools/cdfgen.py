#!/usr/bin/env python3
# Generates the table lists of the E04 and E05 harnesses from the state's fields.
import re
src = open('/repo/internal/state/state.go').read()
body = src[src.index('type State struct'):src.index('type MemoryArea')]
fields = []
for l in body.split('\n'):
    m = re.match(r'\s*(\w+Cdf)\s+(\S+)$', l)
    if m and not m[1].startswith(('Tile', 'Saved')):
        fields.append((m[1], m[2]))
def depth(t): return t.count('[')
arr = {'MV_CONTEXTS': 2, 'FRAME_LF_COUNT': 4, '2': 2}
def make(var, t, d):
    # statements that give var small tables
    out = []
    m = re.match(r'\[(?:shared\.)?(\w+)\](.*)', t)
    if m:
        for i in range(arr[m[1]]):
            out += make('%s[%d]' % (var, i), m[2], d)
        return out
    n = t.count('[')
    return ['%s = table%d()' % (var, n)]
def clear(var, t):
    m = re.match(r'\[(?:shared\.)?(\w+)\](.*)', t)
    if m:
        return sum([clear('%s[%d]' % (var, i), m[2]) for i in range(arr[m[1]])], [])
    return ['counters%d(%s)' % (t.count('['), var)]
def chk(f, a, b, msg):
    return ['	vk.Assert(vk.Eq(%s, %s), "%s: %s")' % (a % f, b % f, f, msg) for f, in [(f,)]]
pre = '// Code generated by tools/cdfgen.py; DO NOT EDIT.\n\npackage %s\n\nimport (\n\t"github.com/m4tthewde/gov1/internal/state"\n\t"github.com/m4tthewde/gov1/internal/vk"\n)\n\n'
small = '''func table1() []int { return make([]int, 3) }

func table2() [][]int { return [][]int{make([]int, 3), make([]int, 4)} }

func table3() [][][]int { return [][][]int{table2(), table2()} }

func table4() [][][][]int { return [][][][]int{table3()} }

'''
def func(name, sig, lines):
    return 'func %s(%s) {\n%s\n}\n\n' % (name, sig, '\n'.join('\t' + l.strip() for l in lines))
o = pre % 'tilegroup' + small
o += '''func counters1(c []int) { c[len(c)-1] = 0 }

func counters2(c [][]int) {
	for i := range c {
		counters1(c[i])
	}
}

func counters3(c [][][]int) {
	for i := range c {
		counters2(c[i])
	}
}

func counters4(c [][][][]int) {
	for i := range c {
		counters3(c[i])
	}
}

'''
def fills(pfx):
    out = []
    for f, t in fields:
        out += make('s.%s%s' % (pfx, f), t, 0)
        out.append('vk.Fill(name+"%s", &s.%s%s, 0, 1<<15)' % (f, pfx, f))
    return out
for pfx in ('', 'Tile', 'Saved'):
    o += '// fill%s gives every table small arbitrary contents.\n' % pfx + func('fill' + pfx, 's *state.State, name string', fills(pfx))
o += func('clearTile', 's *state.State', sum([clear('s.Tile' + f, t) for f, t in fields], []))
o += '// tileOf makes the tile tables the frame tables.\n' + func('tileOf', 's *state.State', ['s.Tile%s = s.%s' % (f, f) for f, t in fields])
o += '// scribbleTile overwrites the tables in place.\n' + func('scribbleTile', 's *state.State', ['vk.Fill("scribble%s", &s.Tile%s, 0, 1<<15)' % (f, f) for f, t in fields])
for n, x, y in (('sameTile', 'Tile', 'Tile'), ('sameFrame', '', ''), ('sameSaved', 'Saved', 'Saved'), ('frameIsSaved', '', 'Saved'), ('savedIsTile', 'Saved', 'Tile')):
    o += func(n, 'a, b *state.State, msg string', ['vk.Assert(vk.Eq(a.%s%s, b.%s%s), "%s "+msg)' % (x, f, y, f, f) for f, t in fields])
open('/verif/harness/tilegroup/e04_tables.go', 'w').write(o)
o = pre % 'uncompressedheader' + small
o += func('fill', 's *state.State, name string', fills(''))
o += func('sameFrame', 'a, b *state.State, msg string', ['vk.Assert(vk.Eq(a.%s, b.%s), "%s "+msg)' % (f, f, f) for f, t in fields])
open('/verif/harness/uncompressedheader/e04_tables.go', 'w').write(o)
import subprocess
subprocess.check_call(['gofmt', '-w', '/verif/harness/tilegroup/e04_tables.go', '/verif/harness/uncompressedheader/e04_tables.go'])
