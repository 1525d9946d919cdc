"""Writes lirsym/props.json: the stated bounds of each property's check, and what lies outside them."""
import json, os
P = {}


def prop(i, quick, thorough, outside, assumptions=(), **kw):
    P[i] = dict(bounds=dict(quick=quick, thorough=thorough or quick), outside=outside, assumptions=list(assumptions), **kw)


RES = 'resolutions 0.05, 0.1, 0.25, 0.3, 1, 2.5'
RAYS = 'rays and scans are casts of a listed vector from a symbolic origin (origin coordinates are dyadic numbers in a range)'
prop('C01', RES + ' (exact harness: 0.0625 to 4); offsets and points: every f32 value in +-500 or +-20000; cells +-4000 or '
     '+-1e6, and multiples of 2^8, 2^16 and 2^24 up to 2^44; 2-D and 3-D; grid maps with minimum corner in +-50', None,
     'other resolutions; coordinates beyond +-20000 that are not exact; the tolerance is 4 roundings of the largest magnitude (none in the exact harnesses)')
prop('C02', '5 pairs / 8 triples of resolutions and one case in which each is any value in [0.001, 100]; offsets and points '
     '+-1000; cells +-1e6, and multiples of 2^8, 2^16 and 2^24 up to 2^44', None, 'resolutions outside [0.001, 100]')
prop('C03', 'every f32 except NaN in every coordinate (IEEE semantics), 2-D and 3-D', None, 'NaN coordinates')
prop('C04', 'box faces: every f32 in +-1000 (2-D: all axes; 3-D: one axis symbolic, the others one of 5 arrangements), and '
     'dyadics k/64 up to 1000', 'as quick, and all three axes symbolic at once on dyadics', 'coordinates beyond +-1000; NaN and infinities')
prop('C05', 'resolutions 1/8..2 with dyadic faces k/256 up to 200 (exact), and 0.05, 0.1, 0.3, 2.5 with faces any f32 in +-200 at '
     'least 1 mm apart or on multiples up to 2000 cells', None, 'coordinates beyond +-200; other resolutions')
prop('C06', 'cells in +-2^40 with tile sizes 1 2 3 4 5 7 10 16 100 65536; every tile size up to 40 with cells +-1000',
     'as quick with every tile size up to 400', 'cells beyond +-2^40, other large tile sizes; tile size 0')
prop('C07', RES + '; cells +-1e6 and multiples of 2^8, 2^16 and 2^24 up to 2^44; corners anywhere within 1000 cells (every f32)', None,
     'other cells beyond +-1e6, other resolutions')
prop('C08', 'maps of 3x4, 1x5, 4x2 and 2x2x3, 1x3x2, 3x1x2 cells with any corner in +-1000 cells (or anywhere in +-100 off the '
     'grid), and of up to 80 cells along an axis and 504 in all; every cell and value, histories of 2 writes; outside cells +-2^40', 'histories of 3 writes',
     'maps of other shapes; longer histories (a write reads back and leaves every other cell alone whatever was written before)')
prop('C09', 'maps of 3x2 and 3x2x2 cells at one place (any whole-cell place in +-1000 for one harness) and up to 131 cells wide; boxes within 4 '
     'cells symbolic on one axis (all axes on quarter-cells; up to 160 cells away on the wide maps); resolutions 0.5, 0.1; tiles 1 to 3; '
     'histories of 2 expansions', 'boxes within 6 cells; resolutions 0.5, 0.1, 0.3, 2.5', 'larger maps; longer histories')
prop('C10', 'maps empty or of 2 cells per axis; boxes and points any f32 within 2.5 cells on one symbolic axis, eighth-cells '
     'on all but one axis; boxes up to 150 (24 in 3-D) cells away; resolutions 0.1, 0.5; tiles 1 to 3',
     'boxes within 6 cells; resolutions 0.1, 0.5, 0.3, 0.05, 2.5', 'larger maps, points beyond the stated distance')
prop('C11', '50 ray vectors in 2-D and 26 in 3-D (axis-parallel, diagonal, shallow, zero, reversed) of up to 7 cells, from every origin on a '
     'grid of 64 x 64 (24 per axis in 3-D) places over its cells, 4 resolutions and map offsets; origin and end any f32 within 4 cells '
     '(2.25 in 3-D; products, quotients and roots are then any floats); rays of 300, 1100, 1500 and 70000 cells along an axis',
     'origin grids of 96 (40); rays of 500000 cells; any f32 within 6 (3) cells',
     'other ray vectors beyond the any-f32 distance; NaN and infinite coordinates')
prop('C12', '27 vectors in 2-D, 18 in 3-D and 6 long shallow rays per orientation (up to 60 cells), origins on grids, 4 resolutions and offsets',
     'finer and wider origin grids', 'vectors not listed; the touch test allows a thousandth of a cell of rounding')
prop('C13', '7 vectors in 2-D and 5 in 3-D, 7 limits (zero, negative, fractions of a cell, beyond the ray), origins on lines of 32 places '
     'along each axis, 4 resolutions and offsets; origin, end and limit any f32 within 3 cells (1.75 in 3-D; products, quotients and roots are '
     'any floats); every limit on a lattice of 1/64 cell up to 8 cells for fixed rays', '9 limits, lines of 64 places, all configurations in 3-D, '
     'any f32 within 5 (2.5) cells', 'other vectors and limits')
prop('C14', '5 scans in 2-D and 4 in 3-D of up to 5 points, 3 limits, origins on lines along each axis at two places, 3 resolutions; scans of 2 '
     'points with every f32 coordinate within 1.25 cells; scans of 130 and 1100 points, one of them any f32 in half a cell',
     'longer lines, all resolutions in 3-D, 2500 points', 'other scans; HashSet iteration order is fixed (results are compared as sets)')
prop('C15', 'every f32 of every model setting and cell value (IEEE), each cell of 2x2 and 2x2x2 maps, histories of 2 updates',
     'histories of 4 updates', 'longer histories (one step holds from any state)')
prop('C16', '4 scans in 2-D and 3 in 3-D of up to 4 points from a sensor on a line of 16 places at 4 regions in and around a '
     'map of 4 cells per axis or an empty one, 2 resolutions, 2 ranges; two scans in a row; scans of 130 to 1100 points, one of them any f32 in '
     'half a cell', 'all regions, resolutions, longer lines', 'other scans and maps')
prop('C17', 'histories of 3 log operations with any cells; 3 and 2 scans from a line of sensor places with the cells at or between the limits; '
     'scans of 130 and 160 points, one of them any f32 in half a cell',
     'histories of 4, longer lines, 300 points', 'longer histories; other scans; the order of the log is not specified and not checked across one scan')
prop('C18', 'every f32 of each probability (one at a time), setting and cell value', None,
     'two probabilities varying at once in the constructor (each setting depends on its own)',
     ['logf is monotone, with logf(1) = 0 and logf(x) of the sign of x - 1 (checked for every f32 in [0, inf] of the installed libm)'])
prop('C19', 'maps of 2 cells per axis; every f32 of values and threshold; histories of 3 log operations with any cells; scans of up to 3 points '
     'from a line of 12 sensor places', 'histories of 4, lines of 32 places', 'larger maps and scans')
prop('C20', 'maps of 2 cells per axis with any values and logs of up to 2 cells; every sequence of 2 operations on either copy',
     'sequences of 3 operations, 2 resolutions', 'longer sequences; element types other than i32')
prop('C21', 'every content of 0 to 49 bytes; streams of up to 256 KiB with any record among them; streams in 8 lengths delivered in pieces of 6 '
     'sizes with interruptions; failing streams', 'every content of 0 to 129 bytes; streams of up to 2 MiB', 'longer files; NaN payloads are compared bit for bit')
prop('C22', 'one field at a time any decimal number in 4 forms of up to 2+3 digits (any digits, sign), the others fixed, 3 sets, 4 origins; latitude and '
     'longitude to 3 symbolic last decimals; any byte in a field; every prefix and field count', '6 forms, 5 last decimals',
     'longer numbers, exponents; positions are compared with a tolerance (the projection is checked over the reals)',
     ['sin, cos, log, tan, exp of the projection are uninterpreted, the same on both sides, and within their ranges'])
prop('C23', 'up to 3 files with names of 1 or 2 (3 in the thorough tier) characters, any of them, with or without an extension, in any listing order; contents of up '
     'to 2 records of any bytes; any call failing at any file', '4 name lengths', 'non-UTF-8 and longer names; more files; order is byte-wise by file name',
     ['std makes the file-system calls modelled in harness/src/c23.rs (opendir, readdir64, open64, read, statx, lseek64, close)'])
prop('C24', 'clouds of up to 4 points; every f32 for storing; reals up to 1e30 and dyadics for bounds, NaN in any one coordinate; matrices and points '
     'on dyadic grids for transforms; clouds of 33, 129 and 1030 points with symbolic points at the ends and within', 'clouds of up to 6 points',
     'other clouds; transforms are compared with a rounding tolerance')
prop('C25', 'every f32 (sign, log-odds, probability), pairs for order', None, 'NaN',
     ['logf and expf are monotone with the usual exact values (checked for every f32 of the installed libm)'])
prop('C26', 'every f32 probability in [0, 1] to within 2^-21; every f32 log-odds value in +-10 to within 2^-22 (1 + e^|l|)', None, 'log-odds beyond +-10 '
     '(a probability is rounded to 0 or 1 near 17); errors below the tolerance',
     ['logf and expf err by less than one unit in the last place (2^-23 relative) and are monotone (checked once for every f32 of the installed libm: at most '
      '7.9e-8 and 6.0e-8); their results are otherwise arbitrary'])
prop('C27', 'every f32 (NaN and infinities included) in every corner coordinate; cells in +-2^62; approximate equality: any two f32 in any one '
     'coordinate, 2 absolute and 2 relative tolerances', None, 'approximate equality of boxes that differ in several coordinates; other tolerances')
prop('C28', 'arrays of 3x2, 1x4, 2x3 and 2x1x3, 1x3x2, 2x2x2 elements with any i32 values in row- and column-major order, ' + RES + ', any tile size up '
     'to 1000 and corner in +-1000 cells; any cell in +-2^62 of a default map; growth to 16 (64 in 3-D) places', None,
     'larger arrays; other element types (C08)')
if __name__ == '__main__':
    r = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(r, 'lirsym', 'props.json'), 'w') as f:
        json.dump(P, f, indent=1, sort_keys=True)
        f.write('\n')
