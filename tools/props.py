"""single source for properties.jsonl and MANIFEST.json:
   python3-vt tools/props.py   (rewrites both)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = 'The existing tests evaluate '

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None,
         note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state,
                  observe=observe))


prop('C01', 'Quadrature rules are exact and map correctly to cells',
     'Every supported Gauss rule has all its nodes strictly inside the reference cell and integrates polynomials exactly up to its nominal degree: 2n-1 for n points on the interval (n=1..6), 2n-1 per variable for n*n points on the square (n=1..6), and 1, 2, 5, 7 for the 1, 3, 7 and 13 point triangle rules; other orders are refused. Mapped to an interval, an edge or a convex quadrilateral, the nodes are the images of the reference nodes under the cell\'s reference map and each weight is the reference weight times the local length or area factor, so the weights sum to the length or area of the cell.',
     ['inputs'], 'all supported shapes and orders; all intervals, edges and quadrilaterals whatever their position, size, orientation and distortion',
     'Tests integrate a handful of functions over a few unit-size cells; a wrong digit in one table, or a wrong factor that only shows on skewed or stretched cells, is invisible there.',
     ['src/assembler.py', 'src/mesh.py'],
     [('rule tables', 'src/assembler.py GaussRule.__init__'), ('mapping', 'src/assembler.py GaussRule.mapped_rule'), ('cell maps', 'src/mesh.py Interval/HalfEdge/QuadCell.reference_map')],
     'constant propagation of rule tables + moment equations; abstract interpretation of the mapping over symbolic cells',
     'Sound for every cell geometry (polynomial identities in symbolic vertices, exact arithmetic); tables are checked to the printed precision. Trusts the analyser\'s model of Python/numpy.')

prop('C02', 'Shape functions are nodal, complete and correctly differentiated',
     'For every supported element family (discontinuous order 0-3, continuous order 1-3) in one and two dimensions, the number of shape functions is (degree+1)^dim, the i-th one is a polynomial of that degree per variable equal to 1 at the i-th reference node and 0 at the others, and together they sum to one and reproduce the coordinates. Their reported first and second reference derivatives, in every variable combination, are exactly the derivatives of the shape functions at every reference point; the arrays returned for several points, several requested derivatives or a subset of local degrees of freedom contain exactly these values in the requested order. The same holds for the simplicial elements (orders 1 to 3 on the interval; 1, 2 and quadratic with bubble on the triangle), nodal at vertices, edge midpoints and centre.',
     ['inputs'], 'all element families, dimensions, reference points, derivative orders and subsets of local degrees of freedom',
     'Tests compare a few values at fixed points for some families; an error in one coefficient of one derivative of one shape function passes.',
     ['src/fem.py', 'src/mesh.py'],
     [('shape tables', 'src/fem.py QuadFE.__init__'), ('evaluation', 'src/fem.py QuadFE.phi/dphi/d2phi/shape'), ('reference nodes', 'src/mesh.py RQuadCell/RInterval.assign_dof_positions')],
     'abstract interpretation of the shape tables at symbolic points; polynomial identities',
     'Proves the identities for every reference point. Trusts the analyser\'s model of Python/numpy.')

prop('C03', 'Reference maps, Jacobians and Hessians are mutually consistent',
     'For every interval, edge and quadrilateral the map from reference to physical coordinates interpolates the vertices in order and is linear (bilinear on quadrilaterals), for any number of points at once. The forward Jacobian and Hessian returned with it are its first and second derivatives, the backward Jacobian is the inverse of the forward one and the backward Hessian the second derivative of the inverse map, at each point separately. On intervals, edges, axis-parallel rectangles (whichever side is listed first), parallelograms and trapezoids with vertical sides, mapping a point to physical and back returns the point and the same derivatives.',
     ['inputs'], 'all cells (symbolic vertices) and all points of the cell, any number of points per call',
     'Tests use a couple of concrete cells and compare rounded numbers; second derivatives and backward maps on skewed cells are barely touched.',
     ['src/mesh.py'],
     [('interval map', 'src/mesh.py Interval.reference_map'), ('edge map', 'src/mesh.py HalfEdge.reference_map'), ('quadrilateral map', 'src/mesh.py QuadCell.reference_map')],
     'abstract interpretation over symbolic cells; derivative/inverse identities in rational normal form',
     'Proves the identities for all non-degenerate cells of the named kinds in exact arithmetic. The backward Hessian is decided with one free vertex coordinate at a time on distorted quadrilaterals. Convergence of the iterative inverse on strongly distorted cells is outside.')

prop('C04', 'Physical derivatives of shape functions obey the chain rule',
     'When shape functions are evaluated on a physical cell with the derivative information returned by its reference map, the first and second derivatives obtained are the derivatives with respect to the physical coordinates: they satisfy the chain rule against the cell\'s map for every element family, every local degree of freedom, every variable combination, and at each of several points separately. Mixed second derivatives are symmetric.',
     ['inputs'], 'all element families and points; intervals, rectangles listed from any side, parallelograms and distorted quadrilaterals',
     'Tests check first derivatives on unit squares and a few rectangles; terms that vanish there (mixed terms, curvature of the map) are never exercised.',
     ['src/fem.py', 'src/mesh.py'],
     [('chain rule', 'src/fem.py QuadFE.shape'), ('map derivatives', 'src/mesh.py QuadCell.reference_map')],
     'abstract interpretation of reference map + shape evaluation; chain-rule identities in rational normal form',
     'Universal in the evaluation point; geometry symbolic for intervals, rectangles and parallelograms, one free coordinate for distorted cells.')

exec(open(os.path.join(ROOT, 'tools', 'props_more.py')).read()) \
    if os.path.exists(os.path.join(ROOT, 'tools', 'props_more.py')) else None


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = {'files': p['files'],
                 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w}
                              for n, m, w in p['state']]
            if p['observe']:
                a['observe_at'] = p['observe']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1,
         'setup_cmd': 'python3-vt -c "import numpy"',
         'checks': [], 'not_applicable': []}
    for p in P:
        if p['na']:
            m['not_applicable'].append({'property': p['id'],
                                        'reason': p['na']})
        else:
            m['checks'].append({
                'property': p['id'],
                'quick_cmd': 'python3-vt check.py %s quick' % p['id'],
                'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
                'technique': 'static analysis: ' + p['technique'],
                'level': 'other', 'level_note': p['note']})
    m['notes'] = ('All checks are static: they parse /repo/src on every run '
                  'and never import or execute it. No hooks.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
