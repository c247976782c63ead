"""Bind the Go decoder to the Go compiler: compile generated Go packages
against stand-ins of the acetimego types they use and dump what the compiler
made of every table."""
import json
import os
import re
import shutil
import subprocess
import tempfile

ZONEINFO = '''package zoneinfo
type ZoneDataContext struct {
	TzDatabaseVersion string
	StartYear, UntilYear, StartYearAccurate, UntilYearAccurate int16
	MaxTransitions int16
	LetterData string
	LetterOffsets []uint8
	FormatData string
	FormatOffsets []uint16
	NameData string
	NameOffsets []uint16
	ZoneRuleChunkSize, ZonePolicyChunkSize uint8
	ZoneEraChunkSize, ZoneInfoChunkSize uint8
	ZoneRuleCount, ZonePolicyCount, ZoneEraCount, ZoneInfoCount uint16
	ZoneRulesData, ZonePoliciesData, ZoneErasData, ZoneInfosData string
}
type ZoneRecordContext struct {
	TzDatabaseVersion string
	StartYear, UntilYear, StartYearAccurate, UntilYearAccurate int16
	MaxTransitions int16
	LetterData string
	LetterOffsets []uint8
	FormatData string
	FormatOffsets []uint16
	NameData string
	NameOffsets []uint16
	ZoneRuleRecords []ZoneRuleRecord
	ZonePolicyRecords []ZonePolicyRecord
	ZoneEraRecords []ZoneEraRecord
	ZoneInfoRecords []ZoneInfoRecord
}
type ZoneRuleRecord struct {
	FromYear, ToYear int16
	InMonth, OnDayOfWeek uint8
	OnDayOfMonth int8
	AtSecondsModifier uint8
	AtSecondsCode uint16
	DeltaMinutes int8
	LetterIndex uint8
}
type ZonePolicyRecord struct { RuleIndex, RuleCount uint16 }
type ZoneEraRecord struct {
	FormatIndex uint16
	PolicyIndex, OffsetSecondsRemainder uint8
	OffsetSecondsCode, UntilYear int16
	DeltaMinutes int8
	UntilMonth, UntilDay, UntilSecondsModifier uint8
	UntilSecondsCode uint16
}
type ZoneInfoRecord struct {
	ZoneID uint32
	NameIndex, EraIndex, EraCount, TargetIndex uint16
}
'''
INTERNAL = '''package internal
import ("testing"; "github.com/bxparks/acetimego/zoneinfo")
type d = zoneinfo.ZoneDataContext
type r = zoneinfo.ZoneRecordContext
func VerifyZoneInfoReader(t *testing.T, a *d, b *r) {}
func VerifyZoneEraReader(t *testing.T, a *d, b *r) {}
func VerifyZonePolicyReader(t *testing.T, a *d, b *r) {}
func VerifyZoneRuleReader(t *testing.T, a *d, b *r) {}
'''


def dump(many):
    """[files] -> [{'data': .., 'record': .., 'ids': .., 'index': ..}] as the
    Go compiler sees them; raises with the compiler's message."""
    base = '/dev/shm' if os.path.isdir('/dev/shm') else None
    top = tempfile.mkdtemp(prefix='mcgo', dir=base)
    try:
        return _dump(top, many)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def _dump(top, many):
    _put(top + '/m/go.mod', 'module github.com/bxparks/acetimego\n\ngo 1.18\n')
    _put(top + '/m/zoneinfo/z.go', ZONEINFO)
    _put(top + '/m/internal/i.go', INTERNAL)
    main, use = [], []
    for i, files in enumerate(many):
        ids, idx = [], []
        for n, b in files.items():
            if not n.endswith('.go'):
                continue
            # test files become ordinary ones so that main can see them
            _put(top + '/m/p%d/%s' % (i, n.replace('_test.go', '_t.go')), b)
            t = b.decode()
            ids += re.findall(r'^\s*(ZoneID\w+) uint32', t, re.M)
            idx += re.findall(r'^\s*(ZoneInfoIndex\w+) uint16', t, re.M)
        main.append('p%d "github.com/bxparks/acetimego/p%d"' % (i, i))
        use.append('{&p%d.DataContext, &p%d.RecordContext, '
                   'map[string]uint32{%s}, map[string]uint16{%s}}' % (
                       i, i,
                       ', '.join('"%s": p%d.%s' % (x, i, x) for x in ids),
                       ', '.join('"%s": p%d.%s' % (x, i, x) for x in idx)))
    _put(top + '/m/cmd/main.go', '''package main
import (
	"encoding/json"
	"os"
	"github.com/bxparks/acetimego/zoneinfo"
	%s
)
type one struct {
	Data *zoneinfo.ZoneDataContext
	Record *zoneinfo.ZoneRecordContext
	IDs map[string]uint32
	Index map[string]uint16
}
func hex(s *string) {
	o := make([]byte, 0)
	for i := 0; i < len(*s); i++ {
		o = append(o, "0123456789abcdef"[(*s)[i] >> 4],
			"0123456789abcdef"[(*s)[i] & 15])
	}
	*s = string(o)
}
func main() {
	all := []one{
		%s,
	}
	for _, x := range all {
		for _, s := range []*string{&x.Data.ZoneRulesData,
			&x.Data.ZonePoliciesData, &x.Data.ZoneErasData,
			&x.Data.ZoneInfosData, &x.Data.LetterData,
			&x.Data.FormatData, &x.Data.NameData,
			&x.Record.LetterData, &x.Record.FormatData,
			&x.Record.NameData} {
			hex(s)
		}
	}
	e := json.NewEncoder(os.Stdout)
	if err := e.Encode(all); err != nil {
		panic(err)
	}
}
''' % ('\n\t'.join(main), ',\n\t\t'.join(use)))
    env = {k: v for k, v in os.environ.items() if not k.startswith('GO')}
    env.update(GOCACHE=top + '/cache', GOPATH=top + '/path', HOME=top,
               GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local',
               GOTELEMETRY='off', TMPDIR=top, CGO_ENABLED='0')
    p = subprocess.run(['go', 'run', './cmd'], cwd=top + '/m', env=env,
                       capture_output=True, timeout=400)
    if p.returncode:
        raise Refused(p.stderr.decode(errors='replace')[:3000])
    return json.loads(p.stdout)


class Refused(Exception):
    pass


def view(T):
    """What decode_go.scan made of the same packages, in dump()'s form."""
    g = T.g

    def ctx(name):
        out = {}
        for k, v in g[name].items():
            if isinstance(v, tuple):
                v = g[v[1]]
            if isinstance(v, bytes):
                v = v.decode() if k == 'TzDatabaseVersion' else v.hex()
            if k.endswith('Offsets'):
                v = _b64(v) if k == 'LetterOffsets' else v
            out[k] = v
        return out
    return {'Data': ctx('DataContext'), 'Record': ctx('RecordContext'),
            'IDs': {k: v for k, v in g.items() if k.startswith('ZoneID') and
                    isinstance(v, int)},
            'Index': {k: v for k, v in g.items()
                      if k.startswith('ZoneInfoIndex') and
                      isinstance(v, int)}}


def _b64(v):
    import base64       # encoding/json writes []uint8 so
    return base64.b64encode(bytes(v)).decode()
