"""Registry: which harnesses decide which property, within which bounds.

budget = (quick, thorough) seconds of exploration per run; `tiers` limits a run to a tier.
"""
ASSUME = [
    "The code is executed symbolically as compiled by clang 18 -O1 (stack variables without initial value filled with a pattern) from /repo's current sources; the replay build is g++ -O1 of the same sources.",
    "Arithmetic on symbolic doubles is exact rational arithmetic in the solver; a branch or assertion is decided only where that is the machine result (dyadic values within 53 bits) or "
    "is counted as inexact / diverged, and every counterexample must reproduce on the native build before it is reported.",
    "libstdc++ and Boost.Spirit header code is part of the encoding; libm's transcendental functions are evaluated concretely.",
]
POS = "position of the clip relative to the subject symbolic, every integer in [-13,13]^2, whole scene translated by a symbolic integer vector in [-2^20,2^20]^2; "
FIX = "position of the clip relative to the subject symbolic, every integer in [-13,13]^2; "
CRV = "{lens, S-sided, circle, loop} x {triangle, bite, circle, leaf} (quick: the first two of each), both directions, relative position by case on a grid in general position; query x symbolic over [-25,25], 33 query heights; "
SLP = "position of the clip relative to the subject symbolic, every integer in [-9,9]^2; query point symbolic on a grid, a few hundredths off every edge; 4 operations x 4 fill rules"
QRY = "query point symbolic on a 1/8 grid over [-30,30]^2 (off the edges); "
OPF = "all 4 operations x 4 fill rules on every path"

PROPS = {
 "C01": {"runs": [
   {"name": "region", "src": "c01_region.cpp", "budget": (150, 600), "bounds": "{rectangle, diamond, L} x {rectangle, tall rectangle, diamond, right triangle} in both orientations; " + POS + QRY + OPF},
   {"name": "region_self", "src": "c01_region.cpp", "defs": ["SETA=T_BOW,T_RING,T_OVER,T_CHEV", "SETB=T_UP"], "budget": (150, 600), "tiers": ("quick",),
    "bounds": "{self-crossing bow tie, ring with hole, two overlapping squares, chevron} x {triangle} in both orientations; " + POS + QRY + OPF},
   {"name": "region_all", "src": "c01_region.cpp", "defs": ["SETA=T_BOW,T_HOUR,T_RING,T_NEST,T_OVER,T_PARA,T_TWO,T_CHEV,T_UP,T_DOWN,T_U", "SETB=T_RECT,T_DIAMOND,T_BOW,T_UP,T_L"], "budget": (600, 1800), "tiers": ("thorough",),
    "bounds": "11 x 5 templates (self-crossing, holes, nested, several contours, parallelogram, chevron, U) in both orientations; " + POS + QRY + OPF},
   {"name": "scale", "src": "c01_scale.cpp", "budget": (150, 600), "bounds": "{rectangle, diamond, L} x {rectangle, triangle}, scene in units of 2^-40 and 2^40, and a small shape (unit 1 and 1/1024) at every corner of one 2^19 times larger; " + FIX + QRY + OPF},
  ],
  "outside": "edges that are neither axis-parallel nor at 45 degrees (those are C22), more than 12 vertices per operand, coordinates beyond 2^45, size ratios beyond 2^19"},
 "C02": {"runs": [
   {"name": "form", "src": "c02_form.cpp", "defs": ["SETA=T_RECT,T_RING", "SETB=T_DIAMOND,T_RECT"], "budget": (150, 600), "tiers": ("quick",),
    "bounds": "{rectangle, ring} x {diamond, rectangle} in both orientations; " + POS + QRY + OPF},
   {"name": "form_self", "src": "c02_form.cpp", "defs": ["SETA=T_BOW", "SETB=T_UP"], "budget": (150, 600), "tiers": ("quick",),
    "bounds": "bow tie x triangle in both orientations; " + POS + QRY + OPF},
   {"name": "form_all", "src": "c02_form.cpp", "budget": (400, 1800), "tiers": ("thorough",),
    "bounds": "{rectangle, diamond, bow tie} x {rectangle, diamond, ring} in both orientations; " + POS + QRY + OPF}],
  "outside": "as for C01; vertex minimality is not claimed"},
 "C03": {"runs": [{"name": "multi", "src": "c03_multi.cpp", "budget": (200, 900), "bounds": "two contours of one role (rectangle/diamond + rectangle, thorough also L), or three (a square in a rectangle + a moving rectangle), arriving in separate calls with the other role in between, against a fixed tall rectangle; both orientations of each; " + POS + QRY + OPF}],
  "outside": "more than one moving contour, more than three contours per role"},
 "C04": {"runs": [{"name": "repr", "src": "c04_repr.cpp", "budget": (200, 900), "bounds": "10 ways of writing the same shapes (rotated start, explicit closing, repeated vertex, vertex on every edge, add order, one path object, callback stream); {rectangle, diamond(, ring)} x {rectangle, diamond(, U)}; " + POS + QRY + "4 operations x 3 fill rules on every path"},
   {"name": "curve", "src": "c04_curve.cpp", "defs": ["MODE=0"], "query_ms": 2000, "budget": (100, 900), "bounds": "5 ways of writing shapes with cubic sides; " + CRV + "4 operations"}],
  "outside": "other rewritings"},
 "C05": {"runs": [{"name": "api", "src": "c05_api.cpp", "budget": (200, 900), "bounds": "container input/output against callback input/output and against appending to a non-empty result, and the empty operation; 2 x 2 (thorough 4 x 4) templates; " + POS + OPF},
   {"name": "curve", "src": "c04_curve.cpp", "defs": ["MODE=1"], "query_ms": 2000, "budget": (100, 900), "bounds": "callback input and output for shapes with cubic sides, and writing with some callbacks not given; " + CRV + "4 operations"}],
  "outside": "callbacks that throw or re-enter the library"},
 "C06": {"runs": [{"name": "history", "src": "c06_history.cpp", "budget": (200, 900), "bounds": "6 histories (earlier process() calls with another operation and fill rule, twice, before the clip arrives, descending heap addresses, another processor interleaved); 2 x 2 (thorough 4 x 4) templates; " + FIX + QRY + "8 operation/fill combinations on every path"},
   {"name": "curve", "src": "c04_curve.cpp", "defs": ["MODE=2"], "query_ms": 2000, "budget": (100, 900), "bounds": "5 histories with shapes that have cubic sides; " + CRV + "4 operations"}],
  "outside": "longer histories; threads"},
 "C07": {"runs": [
   {"name": "degen", "src": "c07_degen.cpp", "budget": (240, 1800), "bounds": "18 degenerate operands (nothing, a point, segments, collinear or repeated points, flat rectangles, spikes, duplicate/cancelling/touching/twice-traversed contours, stray points, collapsed notch) as subject and as clip; " + POS + QRY + OPF},
   {"name": "tri", "src": "c07_safe.cpp", "defs": ["NS=3", "NC=0"], "query_ms": 3000, "budget": (60, 300), "bounds": "every triangle with vertices on a 4x4 integer grid (all six coordinates symbolic), 4 operations"},
   {"name": "curve", "src": "c07_curve.cpp", "query_ms": 2000, "budget": (150, 900), "bounds": "19 degenerate outlines with cubics (one point, straight, flat, flat beyond its ends, closed on itself, controls on the ends, cusp, there and back, twice around, cancelling, zero-length in between, flat tangents) against a square and a leaf, both roles, relative position by case on a grid; query x symbolic over [-25,25], 33 query heights; " + OPF}],
  "outside": "fully symbolic pairs of polygons; straight cubics that run back over themselves; NaN and infinite coordinates"},
 "C08": {"runs": [{"name": "record", "src": "c08_record.cpp", "budget": (60, 600), "bounds": "every sequence of up to 4 (thorough 5) commands, every coordinate an arbitrary 64-bit double (NaN, infinities, signed zeros included), every subset of callbacks, original / moved-to / read twice"}],
  "outside": "longer paths"},
 "C09": {"runs": [
   {"name": "text", "src": "c09_text.cpp", "budget": (100, 600), "bounds": "well-formed text of up to 3 commands with every digit symbolic, and its damaged variants"},
   {"name": "bytes", "src": "c09_bytes.cpp", "defs": ["NB=3"], "budget": (100, 300), "tiers": ("quick",), "bounds": "every string of 3 arbitrary bytes after each of 8 prefixes"},
   {"name": "mutate", "src": "c09_bytes.cpp", "defs": ["MUT=1"], "budget": (100, 300), "tiers": ("quick",), "bounds": "two texts using every command, one arbitrary byte in place of or before each character"},
   {"name": "mutate2", "src": "c09_bytes.cpp", "defs": ["MUT=2"], "budget": (100, 900), "tiers": ("thorough",), "bounds": "two texts using every command, two arbitrary bytes in place of or before each character"},
   {"name": "bytes4", "src": "c09_bytes.cpp", "defs": ["NB=4"], "budget": (100, 600), "tiers": ("thorough",), "bounds": "every string of 4 arbitrary bytes after each of 8 prefixes"}],
  "outside": "longer texts"},
 "C10": {"runs": [
   {"name": "lines", "src": "c10_lines.cpp", "budget": (60, 300), "bounds": "8 x 8 directions with power-of-two extents, relative position symbolic in [-20,20]^2, translation in [-2^20,2^20]^2"},
   {"name": "lines_dirs", "src": "c10_lines.cpp", "defs": ["DIRS=1"], "budget": (60, 300), "bounds": "26 x 26 general directions, relative position symbolic in [-20,20]^2, translation in [-2^20,2^20]^2; endpoint touches with a rounding division excluded"}],
  "outside": "other directions"},
 "C11": {"runs": [{"name": "split", "src": "c11_split.cpp", "budget": (60, 300), "bounds": "eight control coordinates symbolic in [-1000,1000], parameter symbolic on a 1/64 grid of [0,1], position on a piece symbolic on a 1/16 grid; 0 to 2 (thorough 3) cuts by case on a 1/8 grid"}]},
 "C12": {"runs": [{"name": "splity", "src": "c12_splity.cpp", "budget": (60, 300), "bounds": "y control values on an integer grid, x and translation symbolic"}]},
 "C13": {"runs": [{"name": "box", "src": "c13_box.cpp", "budget": (60, 300), "bounds": "control polygon on an integer grid, translation symbolic"}]},
 "C14": {"runs": [{"name": "roots", "src": "c14_roots.cpp", "budget": (60, 300), "bounds": "quadratics: leading coefficients by case in [-4,4]x[-5,5], constant term symbolic in [-1000,1000], also through the cubic solver; cubics: integer coefficients in [-4,4] (thorough 6) and products of integer roots by case, common scale symbolic"}]},
 "C15": {"runs": [{"name": "aty", "src": "c15_aty.cpp", "budget": (60, 300), "bounds": "straight in y: slope, height and offset symbolic; parabolic: shape by case, height and offset symbolic; cubic: control heights by case in [-3,3] (thorough 5), offset symbolic in +-2^16"}]},
 "C16": {"runs": [{"name": "linecubic", "src": "c16_linecubic.cpp", "budget": (60, 300), "bounds": "6 segment directions; straight, parabolic and grid cubics (control values in [-2,2], thorough 4); segment ends, distance and translation symbolic"}]},
 "C17": {"runs": [{"name": "cubics", "src": "c17_cubics.cpp", "budget": (60, 300), "bounds": "6 x 6 cubic shapes x 25 (thorough 169) relative positions in both directions, translation symbolic in integers; straight cubics with relative position symbolic on a 1/8 grid"}]},
 "C18": {"runs": [{"name": "prim", "src": "c18_prim.cpp", "budget": (60, 300), "bounds": "rectangles: every finite double; vectors: integers in [-1000,1000]; lines: 6 directions, point and position symbolic; rotation: 8 angles, vector symbolic; length and normalization: 7 directions, length symbolic"}]},
 "C19": {"runs": [{"name": "circle", "src": "c19_circle.cpp", "budget": (60, 300), "bounds": "centre symbolic in [-10000,10000]^2, radius symbolic in [1,1000], 17 parameters per piece"}]},
 "C20": {"runs": [
   {"name": "chain", "src": "c20_chain.cpp", "budget": (150, 900), "bounds": "(s op1 c) op2 d for all 16 operation pairs, the first result entering as subject or clip; 2 x 2 (thorough 4 x 4) templates against a fixed tall rectangle; " + FIX + QRY},
   {"name": "curve", "src": "c20_curve.cpp", "query_ms": 2000, "budget": (100, 900), "bounds": "(s op1 c) op2 d for all 16 operation pairs, the first result, with its curved pieces, entering as subject or clip; " + CRV + "against a fixed square or lens"},
   {"name": "again", "src": "c20_curve.cpp", "defs": ["WHAT=1"], "query_ms": 2000, "budget": (100, 900), "bounds": "(s op1 c) op2 s and (s op1 c) op2 c for all 16 operation pairs, so that outlines coincide in part; " + CRV},
   {"name": "again_poly", "src": "c20_curve.cpp", "defs": ["WHAT=1", "SETA=5,6,5,6", "SETB=5,5,5,5"], "query_ms": 2000, "budget": (100, 600), "tiers": ("thorough",), "bounds": "as again, for polygons with edges of general slope"}],
  "outside": "longer chains"},
 "C21": {"runs": [
   {"name": "curve_y", "src": "c21_curve.cpp", "query_ms": 3000, "budget": (120, 900), "bounds": "3 curved sides (bulge, dent, S) against 2 rectangles in both roles; vertical position of the rectangle symbolic, horizontal by case; query x symbolic, 7 query heights, 4 operations"},
   {"name": "curve_x", "src": "c21_curve.cpp", "defs": ["SYMX=1"], "query_ms": 3000, "budget": (60, 900), "tiers": ("thorough",), "bounds": "as curve_y with the horizontal position symbolic and the vertical by case"},
   {"name": "general", "src": "c21_general.cpp", "query_ms": 2000, "budget": (150, 600), "tiers": ("quick",), "bounds": "{circle, lens, S-sided, loop, bite} x {triangle, square, leaf, circle, lens}, relative position by case (7 x 7 in general position), both directions; query x symbolic over [-25,25], 33 query heights; 4 operations x 4 fill rules"},
   {"name": "shared", "src": "c21_shared.cpp", "query_ms": 2000, "budget": (150, 900), "bounds": "the same outline (9 shapes) in both roles in equal and opposite direction; two shapes with a common curved side (4 curves) on the same or on opposite sides of it, also crossed by a third contour; 4 (thorough 9) offsets; query x symbolic over [-25,25], 33 query heights; 4 operations x 4 fill rules"},
   {"name": "general_all", "src": "c21_general.cpp", "defs": ["SETA=0,1,2,3,4,5,6,7,8", "SETB=0,1,2,4,7,8", "POS=7"], "query_ms": 2000, "budget": (150, 1800), "tiers": ("thorough",), "bounds": "9 x 6 shapes, 15 x 15 positions, both directions and roles; otherwise as general"}],
  "outside": "curves that touch without crossing, crossings at vertices; in the general runs the position of the operands is a case split, the query point is what is symbolic"},
 "C22": {"runs": [
   {"name": "slope", "src": "c22_slope.cpp", "query_ms": 2000, "budget": (240, 600), "bounds": "{triangle, self-crossing, kite} x {triangle, rectangle} with edges of general slope; " + SLP},
   {"name": "slope_thin", "src": "c22_slope.cpp", "defs": ["SETA=1,4", "SETB=5,7"], "query_ms": 2000, "budget": (240, 900), "tiers": ("thorough",), "bounds": "{triangle, kite} x {sliver, ring}; " + SLP},
   {"name": "slope_more", "src": "c22_slope.cpp", "defs": ["SETA=3,6,7,9", "SETB=0,1"], "query_ms": 2000, "budget": (240, 1800), "tiers": ("thorough",), "bounds": "{pentagram, star, ring, spike} x {triangle, triangle}; " + SLP}],
  "outside": "other polygons; query points within a few hundredths of an edge"},
 "C23": {"runs": [{"name": "memory", "src": "c23_memory.cpp", "budget": (100, 600), "bounds": "8 ways of using the library (container, callbacks, repeated processing with paths added in between, nothing processed, no operation, text and moved paths, curves); 3 x 2 (thorough 4 x 4) templates; polygon positions symbolic in [-13,13]^2, curve positions by case; all operations"}],
  "outside": "allocation failure; callbacks that throw"},
}
