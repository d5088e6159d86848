#!/usr/bin/env python3
"""Writes DESIGN.md from registry.py, properties.jsonl, known_findings.json, seeded/ and the notes below."""
import json, os, glob
from registry import PROPS
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
known = json.load(open(H + '/known_findings.json'))['findings']

HEAD = r'''
# Verification of richardhaslam/frackit by bounded-exhaustive model checking

frackit is a sequential, header-only C++17 library (plus pybind11/Python layer). It has no threads,
no crash-relevant storage and no protocol; its nondeterminism is (1) the *input configuration*,
(2) the *operation history* on its stateful objects (builders, constraints, samplers, status, lazily filled geometries) and
(3) the *random draws* of the samplers. Every check therefore is an explicit-state exploration over one of
these, executing the **real code** of /repo in every state, against a reference model:

* **configuration spaces** - initial configurations closed under a finite set of moves (lattice placement,
  the 24 lattice rotations or generators thereof, oblique rotations, scaling, relabelling). State = one configuration, transition =
  one real API call from it; the oracle is exact arithmetic on the integer lattice (or long double closed forms with a guard band:
  a state whose exact distance to a decision boundary lies within the library's own tolerance band is not judged).
* **history spaces** - all operation sequences up to a depth (complete trees, or breadth first with states merged by a canonical form of the
  reference model); in every state all observers of the real object are compared with the model.
* **draw spaces** - the random engine/distributions are replaced by an enumerator (no hook in /repo needed: the samplers
  take their distributions as template traits; `std::default_random_engine` is renamed at preprocessing in the harness TU), and all
  choice sequences within a bound are executed.

The model (reference implementation) lives in the harness and *every* model state is compared with the implementation when it is visited,
so `traces_validated_against_impl` in the evidence counts real executions that were compared, never model-only states.
Nothing is sampled, and VERIF_SEED is not used by any check. "Strided" below means that a fixed, documented arithmetic progression of
the product space is executed in the quick tier (the thorough tier uses smaller strides or the full product).

## How a check runs

`check.py <PROPERTY> [--tier quick|thorough]` reads registry.py, compiles the harness programs of the property against /repo's *current working
tree* (g++ -std=c++17, in a scratch directory; nothing of /opt/vp's build is used; the Python programs configure and build the bindings into a scratch
directory), runs each program split over 8 worker processes (`shard i of n` over the outermost states; a crash or a hang of a worker
is attributed to the state it announced), merges the reports, matches every violation against known_findings.json (by the exact class key of the
failing call site and operands, see "Findings") and writes evidence/<id>.json. Exit 1 with one `VIOLATION property=.. replay=..` line per
unlisted violation class; the replay file holds the command that repeats exactly this state (`--only KEY`).

Harness parts: vf.hh (sharding, reports, classes), dfs.hh (history trees), geo.hh (lattice poses, exact rotations, reference geometry), planar.hh
(exact sections of planar entities), gjk.hh (certified convex distances), cylsect.hh (curve sections by root isolation), ents.hh (entity catalogue),
contref.hh (measures of parts), net.hh (cubical cell complex = model of networks, abstraction of built networks to cells), vfpy.py/pyref.py (Python
runtime and reference geometry).

No hooks were needed in /repo: everything observed is public API (the samplers' engine is replaced by a macro in the harness's translation unit).

## Judging rules common to all checks (what keeps them quiet where the property holds)

* Exact placements (exactly disjoint, exactly touching, overlapping by at least a lattice fraction) are judged; placements closer to a decision boundary
  than the tolerance in force (times a safety factor) but not on it are generated and skipped. Concretely: near-touching within 1e-5 (planar) / 2e-4
  (cylinder) relative to the size is not judged; tangential rim contacts are judged in lattice poses only, because in oblique poses rounding decides.
* The CAD kernel carries an absolute error of about 1e-7; distances at scale 1e-2 are compared with an absolute tolerance of 1e-5.
  BRepGProp ellipse lengths are off by up to 3e-4, so reference lengths are integrated in the harness and compared with 1e-3 there.
* Where the wrong number is the kernel's (OpenCASCADE, not part of the repository), the failure path calls the kernel directly on independently built and
  verified operands; only if that is wrong too, the violation gets the class `kernel ..`, which known findings list. Anything else is reported.
* Networks: the number of fragments is not judged when an entity runs along the surface of a fused union or when a confined-away part touches
  another entity; parts that several entities have in common may be attributed to any of them; near-degenerate curved arrangements are skipped.
* Written files: numbered as Gmsh numbers a geometry (solid, shell, face, wire, edge traversal); a face/solid shared by several owners may be in any owner's
  group; the Merge target may resolve relative to the .geo file or the working directory; a physical line may group any edges that share an entity pair.
'''

NOTES = {
'C01': ("Lattice points give every combination of inside/edge/corner/outside per octant exactly; the 29 rotations include 5 oblique ones.", "explicit tolerances much larger than the feature size are not judged for triangles/quadrilaterals/polygons (the library compares areas); ellipse-like geometries take eps relative to their size, arcs take it as an angle (documented behaviour is followed)."),
'C02': ("", ""),
'C03': ("", "non-convex polygons: area/contains are documented as not implemented (exception expected)."),
'C04': ("", "Triangle/Line/Plane/HollowCylinder have no shape conversion; bounding boxes of curved shapes may exceed the tight box by 5 %, and by the 1e-7 gap of the kernel."),
'C05': ("", ""),
'C06': ("", ""),
'C07': ("", "coplanar operands (throws NotImplemented) and quadrilateral/polygon pairs (not implemented)."),
'C08': ("", "near-tangential placements closer than 2e-4."),
'C09': ("The invariance graph is walked from every base pair, so a wrong answer in any one presentation is noticed without an oracle for the answer itself.", "parts are compared by total length/area and centroid, not by how they are split."),
'C10': ("", "arcs and ellipses: the minimum over the sample points documented in the code (ends and quarter points) is required."),
'C11': ("", ""),
'C12': ("Face/solid boundary is the outer wire/outer shell (documented).", ""),
'C13': ("", "applyOnGeometry (type-erased entities) supports disks and quadrilaterals only."),
'C14': ("", "limits closer than 1e-4 to the true value."),
'C15': ("", ""),
'C16': ("", ""),
'C17': ("", "text layout of the printed table beyond the four numbers."),
'C18': ("", ""),
'C19': ("", ""),
'C20': ("", "uniformity is judged only if the sampler consumes three engine outputs per point (else only membership and reachability)."),
'C21': ("", "between 90 and 110 rejected draws both an error and a geometry are accepted; extents between 80 and 100 % of the drawn sizes (documented); the deprecated sampler's sizes are compared as a multiset of accepted draws."),
'C22': ("", ""),
'C23': ("", ""),
'C24': ("", ""),
'C25': ("", ""),
'C26': ("", "sub-domain id 0; grouping of physical lines beyond \"all edges of a group share an entity pair\"."),
'C27': ("", "cut only with tools of at least the object's dimension, union only of equal dimensions (others are not defined by the kernel)."),
'C28': ("", "non-convex polygons and coplanar face pairs are judged through shapes; lengths of curves on cylinder surfaces are compared within 0.03."),
'C29': ("", "constraints are held by reference in the Python matrix (copied in C++); contained networks without sub-domain cannot be written."),
'C30': ("The pristine answers are computed in a forked process per query, so that a cache shared between objects is noticed; the same exploration runs under ASAN/UBSAN one level less deep.", "HollowCylinder is not copyable (moves only)."),
'C31': ("", ""),
'C32': ("", "the absolute default tolerances of triangles, cylinders, arcs, lines and planes (documented base value); tolerances chosen by the network builders are judged in C17 and C23."),
}

def main():
    out = [HEAD.strip() + '\n\n## Properties\n']
    for p in props:
        i = p['id']; r = PROPS.get(i)
        out.append('### %s - %s\n' % (i, p['title']))
        if not r: out.append('Not claimed.\n'); continue
        out.append('* **Explored / oracle:** ' + r['rule'] + '.')
        b = r['bounds']
        out.append('* **Bounds (quick):** ' + b['quick'] + '.')
        out.append('* **Bounds (thorough):** ' + b['thorough'] + '.')
        out.append('* **Programs:** ' + ', '.join('%s%s' % (x['src'], ' (%s)' % ' '.join(x.get('flags', []) + x.get('args', [])) if x.get('flags') or x.get('args') else '') for x in r['programs']) + ' - anchored in ' + ', '.join(p['anchors']['files'][:6]) + ('...' if len(p['anchors']['files']) > 6 else '') + '.')
        out.append('* **Beyond the tests:** ' + p['why_tests_cant'] + (' ' + NOTES[i][0] if NOTES[i][0] else ''))
        if NOTES[i][1]: out.append('* **Not judged:** ' + NOTES[i][1])
        for a in r.get('assumptions', []): out.append('* **Assumption:** ' + a + '.')
        c = COST.get(i)
        if c: out.append('* **Cost (quick, 8 cores):** about %d s including compilation.' % c)
        out.append('')
    out.append(FIND.strip() + '\n')
    out.append('### Genuine defects repaired (one `fix:` commit each)\n')
    for k in known:
        if k['status'] == 'fixed': out.append('* ' + k['text'].replace('fixed: property=', ''))
    out.append('\n### Genuine defects recorded, not repaired (CAD kernel)\n')
    for k in known:
        if k['status'] == 'known': out.append('* **%s** (%s, class `%s`): %s' % (k['id'], k['property'], k['match'], k['what']))
    out.append('\n' + TAIL.strip() + '\n')
    res = {}
    f = H + '/seeded_results.json'
    if os.path.exists(f): res = json.load(open(f))
    out.append('| planted bug | property | needs | caught by |\n|---|---|---|---|')
    for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
        d = json.load(open(m)); s = m.split('/')[-2]
        out.append('| %s | %s | %s | %s |' % (s, d['property'], d['needs'].replace('|', '/'), res.get(s, '?')))
    open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')

COST = dict(C01=45, C02=25, C03=30, C04=60, C05=5, C06=95, C07=85, C08=50, C09=40, C10=30, C11=95, C12=55, C13=25, C14=60, C15=45, C16=17, C17=13, C18=5, C19=6, C20=46, C21=65, C22=30, C23=35, C24=50, C25=40, C26=43, C27=43, C28=100, C29=95, C30=90, C31=100, C32=100)
FIND = r'''
## Findings

known_findings.json lists every genuine defect that was found; an entry with status `fixed` suppresses nothing. Entries with status `known` name the exact
class of failing call (site, operand kinds, and that the kernel called directly fails in the same way); a different violation of the same property is reported.
'''
TAIL = r'''
## False alarms met on the way, and what was done

* Point contact of a rim in oblique poses, near-tangential cylinder cuts, slivers below the library's tolerance: oracle was too strict - such states are
  recognised (guard band) and skipped.
* Polygon/quadrilateral `contains` with huge explicit tolerances, boundary membership of points with eps larger than the feature: the documented tolerance is
  not a distance there - only tolerances below a tenth of the feature size are judged.
* Merged networks: order of the sub-networks within a merged network is not specified (hash map); the property was weakened to uniqueness.
* Written physical groups were first compared by an own numbering; the reader now numbers as Gmsh does.
* C20: the uniformity check assumed the engine to be consumed in a certain order; now any order is accepted as long as equal volumes get equal counts.
* C21: whether 100 rejected draws are counted inclusively was first fixed by the oracle; the documented text leaves a margin (90..110).
* C29: evaluating an id without relations (True in Python, exception in C++) is a documented difference and not judged.
* C30: addresses of lazily created parts and HollowCylinder copies (not copyable) are not part of the property.
* C31: sections that end in the seam vertex of a face are lost by BRepAlgoAPI_Section (reproduced with independent operands): chords along an axis are not used;
  coplanar pairs of faces are excluded (documented as not implemented).
* C32: tolerances of lines, planes and of the planes of disks/ellipses are absolute; the kernel decides below 1e-6 and for points of a face next to its boundary:
  those states are skipped (two segments that are closer than the kernel's, but not than their own tolerance make the library throw; not judged).

## Planted bugs

Written from the properties' text and the code, applied to a scratch copy, confirmed to build, to pass the stable tests and to fail their demonstration.
'''
if __name__ == '__main__': main()
