#!/usr/bin/env python3
"""Rewrites the per-property part of DESIGN.md from the harness headers, the oracles below and the evidence of the last run."""
import glob, json, os, re
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
ORACLE = {
 'P01': "An ideal sequence (fixed array plus length) is updated beside the real container; contents, size, capacity order and element lifetimes are compared after each operation of a history.",
 'P02': "An ideal text (array of characters plus length) beside the string, for both storage forms; printed numbers are compared with the C library's own text.",
 'P03': "Each search or slice is defined by quantifying over positions in the harness (first/last position that satisfies the definition).",
 'P04': "Digits are chosen first, the value follows from them by place value; lattice entries are compared one by one; counters against the decimal expansion of the number.",
 'P05': "Order, permutation (multiset equality by counting) and the definition of each range algorithm element by element.",
 'P06': "Bit i of coordinate d is bit (i*D+d) of the code, for every bit; decoding inverts encoding; both build modes agree.",
 'P07': "Componentwise definitions and algebraic identities (distributivity, transpose of products, M M^-1 = I, orthogonality of rotations).",
 'P08': "Entries by (row, column), sums for products, A x = b after solving, A v = lambda v for eigenpairs, each written out in the harness.",
 'P09': "Sums and central moments by definition; the median by counting elements on both sides.",
 'P10': "Every reported value satisfies the equation, and every real number that satisfies it is reported (the candidate root is itself a symbolic input).",
 'P11': "Membership of a symbolic point, corner by corner; the slab definition for rays.",
 'P12': "Interpolation formula; no symbolic point of the segment is nearer than the nearest point reported; a symbolic common point of ray and segment must be reported.",
 'P13': "Boundary integrals for area and centroid, half planes for containment, symbolic common points for rays.",
 'P14': "Exact boundary integrals for the enclosed area, bounds by a symbolic curve point, side by the position on a horizontal slice, stationary points for nearest points.",
 'P15': "Boundary integrals over the quadratic edges; element membership from slices of the fixed elements; symbolic common points for rays.",
 'P16': "Spacing, direction and end points of ray i from the definition; each ray leaves where another enters the periodic image.",
 'P17': "Cell (i,j) is origin + index * spacing; a symbolic point is in the cell returned; a symbolic cell overlapping a box is within the index range returned.",
 'P18': "The divisions that the boxes were cut from; each cell's box and id against the input.",
 'P19': "The published identifier tables written out; agreement of every pair of tables for all identifiers.",
 'P20': "Incidence recomputed from the connectivity by quantification over faces and vertices; a symbolic point against the faces' half planes.",
 'P21': "Crossings recomputed per face and compared as a list; ordering by definition.",
 'P22': "Position along the curve from the quadrant of each centroid; mesh validity from directed edges (each at most once, boundary one loop).",
 'P23': "A plain-array copy of what the soup should hold, updated beside it and compared element by element and set by set.",
 'P24': "Faces compared by position; the source by the sums over materials and groups; power regions by connected components of shared vertices.",
 'P25': "The harness writes the file text from chosen content and compares what is read with that content.",
 'P26': "Content before writing against content after reading, field by field.",
 'P27': "Averages, column sums and interpolation by definition; the element table written out; every malformed input must be reported.",
 'P28': "Number densities from mass balance with the standard atomic weights; macroscopic data by summing density times interpolated data.",
 'P29': "The harness writes the library text from chosen data and compares all data read.",
 'P30': "Position of every child from sums of widths and heights of the map's rows and columns; counts by adding up.",
 'P31': "A request is acceptable iff the written-out conditions hold; otherwise the model must report it and stay as it was.",
 'P32': "Ring areas from the radii (equal-area polygons), edge pairing for conformity, extents, and the material list by ring.",
 'P33': "The expected soup is built cell by cell from the hierarchy and compared by position, set and data.",
 'P34': "Model before writing against model after reading, level by level.",
 'P35': "Area-weighted sums written out over the faces.",
 'P36': "Every value obtained through the C interface against the C++ model it was made from; writes beyond the buffer end are caught by the memory model.",
 'P37': "The text expected from the arguments; severity against level; position of the end marker inside the buffer.",
 'P38': "The SVG colour table; IEEE definitions of ordering, rounding and sign.",
 'P39': "A recording stand-in for every library function: one call, same arguments in order, results handed back.",
 'P40': "A stand-in for the CAD kernel with symbolic tags and pieces; group membership of every piece by definition (first listed material among its parents).",
 'P41': "Groups and colours before saving against those after opening, by rank of the shape.",
 'P42': "The size fields handed to the library are evaluated (expression text included) at a symbolic distance and compared with the formula.",
 'P43': "The harness writes the mesh file from a lattice of cells and compares every cell's faces, positions and materials.",
 'P44': "A reader of the deck's grammar in the harness (headings at the start of a line, cards, comments) takes the files apart again and compares every number with the one put into the model.",
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    i = p['id']
    hs = sorted(glob.glob(V + '/harness/%s.cpp' % i) + glob.glob(V + '/harness/%s_*.cpp' % i))
    b, o, st, n, modes = [], [], [], 0, set()
    for h in hs:
        t = open(h).read()
        for inc in re.findall(r'^#include "(\w+\.inc)"', t, re.M):
            if os.path.exists(V + "/harness/inc/" + inc):
                t += open(V + "/harness/inc/" + inc).read()
        b += re.findall(r'^// @bounds (.*)$', t, re.M)
        o += re.findall(r'^// @outside (.*)$', t, re.M)
        st += re.findall(r'^// @stub (.*)$', t, re.M)
        es = re.findall(r'^// @entry (.*)$', t, re.M)
        n += len(es)
        for e in es:
            m = re.search(r'mode=(\w+)', e)
            modes.add(m.group(1) if m else 'int')
    out.append('### %s %s' % (i, p['title']))
    out.append('* Specification and oracle: ' + ORACLE[i])
    out.append('* Bounds: ' + '; '.join(b))
    out.append('* Outside: ' + '; '.join(o))
    for s in st:
        out.append('* Stub: ' + s)
    out.append('* Why tests cannot settle it: ' + p['why_tests_cant'])
    ev = V + '/evidence/%s.json' % i
    c = ''
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = '; last run %.0f s on 8 cores' % (e.get('wall_s') or e.get('seconds') or 0)
    out.append('* Machinery: %d symbolic entries in %s, number model %s%s' % (n, ', '.join(os.path.basename(h) for h in hs), '/'.join(sorted(modes)), c))
    out.append('')
d = open(V + '/DESIGN.md').read()
a = d.index('<!-- properties -->')
z = d.index('<!-- /properties -->')
d = d[:a] + '<!-- properties -->\n' + '\n'.join(out) + d[z:]
open(V + '/DESIGN.md', 'w').write(d)
