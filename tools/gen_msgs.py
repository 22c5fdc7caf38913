#!/usr/bin/env python3
"""Minimal stand-in for rosidl_generator_cpp: turns /repo's msg/*.msg into C++ structs."""
import re, sys, pathlib

PRIM = {'char': 'uint8_t', 'byte': 'uint8_t', 'bool': 'bool', 'int8': 'int8_t', 'uint8': 'uint8_t',
        'int16': 'int16_t', 'uint16': 'uint16_t', 'int32': 'int32_t', 'uint32': 'uint32_t',
        'int64': 'int64_t', 'uint64': 'uint64_t', 'float32': 'float', 'float64': 'double',
        'string': 'std::string'}

def snake(s):
    s = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', s)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', s).lower()

def ctype(t, names):
    m = re.match(r'^([A-Za-z0-9_/]+)(<=\d+)?(\[(<=)?(\d*)\])?$', t)
    if not m:
        raise SystemExit('cannot parse type ' + t)
    base, _, arr, _le, n = m.groups()
    base = base.split('/')[-1]
    c = PRIM.get(base) or (base if base in names else None)
    if c is None:
        raise SystemExit('unknown type ' + t)
    if arr:
        return 'std::array<%s, %s>' % (c, n) if (n and not _le) else 'std::vector<%s>' % c
    return c

def main(src, out):
    src, out = pathlib.Path(src), pathlib.Path(out)
    files = sorted(src.glob('*.msg'))
    names = {f.stem for f in files}
    d = out / 'rmw_dds_common' / 'msg'
    d.mkdir(parents=True, exist_ok=True)
    for f in files:
        fields, deps = [], set()
        for line in f.read_text().splitlines():
            line = line.split('#')[0].strip()
            if not line or ('=' in line.replace('<=', '')):
                continue
            t, n = line.split()[:2]
            fields.append((ctype(t, names), n))
            b = re.match(r'^[A-Za-z0-9_/]+', t).group(0).split('/')[-1]
            if b in names and b != f.stem:
                deps.add(b)
        g = 'SHIM_MSG_%s_HPP_' % f.stem.upper()
        o = ['#ifndef ' + g, '#define ' + g, '#include <array>', '#include <cassert>',
             '#include <cstdint>', '#include <iostream>', '#include <memory>', '#include <string>',
             '#include <vector>']
        o += ['#include "rmw_dds_common/msg/%s.hpp"' % snake(x) for x in sorted(deps)]
        o += ['namespace rmw_dds_common {', 'namespace msg {', 'template<class A>', 'struct %s_' % f.stem, '{']
        # a plain struct is enough; keep rosidl's <Name>_ / <Name> split
        o = o[:-3] + ['struct %s' % f.stem, '{']
        o += ['  %s %s{};' % (t, n) if t.startswith('std::array') or not t.startswith('std::') else '  %s %s;' % (t, n) for t, n in fields]
        o += ['  bool operator==(const %s & o) const' % f.stem,
              '  {return %s;}' % ' && '.join('%s == o.%s' % (n, n) for _, n in fields),
              '  bool operator!=(const %s & o) const {return !(*this == o);}' % f.stem,
              '};', '}}', '#endif', '']
        (d / (snake(f.stem) + '.hpp')).write_text('\n'.join(o))

main(sys.argv[1], sys.argv[2])
