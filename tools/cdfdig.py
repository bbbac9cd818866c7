#!/usr/bin/env python3
# Generates the E05 harness: shape, well-formedness and digest of every default table.
# Run only to re-pin after a table has been checked by hand.
import re, subprocess, os, json, tempfile
src = open('/repo/internal/state/state.go').read()
body = src[src.index('type State struct'):src.index('type MemoryArea')]
fields = [(m[1], m[2]) for l in body.split('\n') for m in [re.match(r'\s*(\w+Cdf)\s+(\S+)$', l)] if m and not m[1].startswith(('Tile', 'Saved'))]
coeff = ['TxbSkipCdf','EobPt16Cdf','EobPt32Cdf','EobPt64Cdf','EobPt128Cdf','EobPt256Cdf','EobPt512Cdf','EobPt1024Cdf','EobExtraCdf','DcSignCdf','CoeffBaseEobCdf','CoeffBaseCdf','CoeffBrCdf']
t = '''package uncompressedheader
import ("testing";"fmt";"reflect";"strings";"github.com/m4tthewde/gov1/internal/state")
func dg(v reflect.Value, h *uint64) { if v.Kind()==reflect.Int { *h = (*h)*0x9E3779B97F4A7C15 + uint64(v.Int()) + 1; return }; *h = (*h)*0x9E3779B97F4A7C15 + uint64(v.Len()); for i:=0;i<v.Len();i++ { dg(v.Index(i),h) } }
func sh(v reflect.Value) string { if v.Kind()==reflect.Int {return ""}; return fmt.Sprint(v.Len())+" "+sh(v.Index(0))}
func TestZZ(t *testing.T){ for _,q:=range []int{20,60,120,121}{ var s state.State
 initNonCoeffCdfs(&s); initCoeffCdfs(&s,UncompressedHeader{BaseQIdx:q}); v:=reflect.ValueOf(s)
 for i:=0;i<v.NumField();i++{ n:=v.Type().Field(i).Name
 if !strings.HasSuffix(n,"Cdf")||strings.HasPrefix(n,"Tile")||strings.HasPrefix(n,"Saved"){continue}
 var h uint64; dg(v.Field(i),&h); fmt.Println("D",n,q,h,sh(v.Field(i))) }}}
'''
d = tempfile.mkdtemp()
open(d + '/t.go', 'w').write(t)
json.dump({'Replace': {'/repo/internal/uncompressedheader/zz_test.go': d + '/t.go'}}, open(d + '/o.json', 'w'))
for f in ('go.mod', 'go.sum'):
    open(d + '/' + f, 'w').write(open('/repo/' + f).read())
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -modfile=%s/go.mod' % d)
out = subprocess.run(['go', 'test', '-overlay', d + '/o.json', '-run', 'TestZZ', '-v', './internal/uncompressedheader'], cwd='/repo', env=env, capture_output=True, text=True).stdout
D, shape = {}, {}
for l in out.split('\n'):
    if l.startswith('D '):
        x = l.split()
        D[x[1], int(x[2])] = int(x[3]); shape.setdefault(x[1], list(map(int, x[4:])))
o = '// Code generated by tools/cdfdig.py; DO NOT EDIT.\n\npackage uncompressedheader\n\nimport (\n\t"github.com/m4tthewde/gov1/internal/state"\n)\n\n'
def calls(names, k):
    r = ''
    for f, ty in fields:
        if f not in names: continue
        dims = shape[f]
        arrs = re.findall(r'\[(?:shared\.)?(\w+)\]', ty)
        pre = ''; idx = ''; ind = '\t'
        r += '\tc = checker{}\n'
        for a in range(len(arrs)):
            r += ind + 'c.h = c.h*mix + %d\n' % dims[a]
            r += ind + 'for %s := range s.%s%s {\n' % ('ijk'[a], f, idx); idx += '[%s]' % 'ijk'[a]; ind += '\t'
        n = ty.count('[') - len(arrs)
        r += ind + 'c.table%d(s.%s%s%s)\n' % (n, f, idx, ''.join(', %d' % x for x in dims[len(arrs):]))
        for a in range(len(arrs)):
            ind = ind[:-1]; r += ind + '}\n'
        if k is None:
            r += '\tc.is(0x%x, "%s")\n' % (D[f, 20], f)
        else:
            r += '\tc.is([]uint64{%s}[idx], "%s")\n' % (', '.join('0x%x' % D[f, q] for q in (20, 60, 120, 121)), f)
    return r
o += 'func defaults(s *state.State) {\n\tvar c checker\n' + calls([f for f, _ in fields if f not in coeff], None) + '}\n\n'
o += 'func coeffDefaults(s *state.State, idx int) {\n\tvar c checker\n' + calls(coeff, 1) + '}\n'
open('/verif/harness/uncompressedheader/e05_tables.go', 'w').write(o)
subprocess.check_call(['gofmt', '-w', '/verif/harness/uncompressedheader/e05_tables.go'])
print(len(D))
