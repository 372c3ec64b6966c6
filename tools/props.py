import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
PRE=' Preconditions: positive cell counts, non-negative padding, padded box of at most INT_MAX cells, positive extents; exact (real) arithmetic.'
U='include/gals/utilities/'
def p(id,title,st,over,q,why,files,mech,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    return {'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':q+PRE},'why_tests_cant':why,'anchors':a}
P=[
p('C01','Every cell of the padded box has its own storage slot',
 'For every grid of one, two or three dimensions, each cell of the padded box maps to a slot inside the storage, two different cells never share a slot, and so every slot belongs to exactly one cell. Coordinates along axes the grid does not have are ignored, whatever their value. Looking a cell up by three coordinates or by a node id gives the same slot, without integer overflow.',
 ['inputs','configurations'],'All cell counts, all paddings, all pairs of cells of the padded box, all values of the inactive coordinates.',
 'The tests compare a few slots of 10x10-sized grids with padding 1; injectivity is a statement about all pairs of cells of all grids.',
 ['src/cpu/grid.cc',U+'grid.h'],[('mixed-radix index with axis mask','src/cpu/grid.cc: Grid::index')]),
p('C02','Grid geometry: cell centres, sizes and counts',
 'After generation with any bounding box and padding, the position of every cell of the padded box, ghost cells included, is the box minimum plus (index + 1/2) cell sizes along every axis the grid has. Cell size is extent over count, its inverse is count over extent, storage has one position per padded cell, and counts, padding, dimension and axis mask are reported as given; the axis vectors are the unit vectors. Generating again with another box or padding leaves nothing of the previous generation.',
 ['inputs','configurations','histories'],'All counts, paddings and boxes; all cells of the padded box; every earlier generation of the same grid.',
 'The tests generate a few boxes with padding 1 and look at single cells; the geometry has to be right for every cell, padding and regeneration.',
 ['src/cpu/grid.cc'],[('generation loop over the padded box','src/cpu/grid.cc: Grid::generate'),('position access','src/cpu/grid.cc: Grid::x, Grid::operator()')]),
p('C03','A point is located in the cell interval that contains it',
 'For every point, the base node found by the grid is, along every axis the grid has, the node whose centre is at or before the point while the next centre is after it. A cell centre is its own base node, also in the ghost layers and at negative indices. Coordinates along other axes have no influence.',
 ['inputs','configurations'],'All counts, paddings, boxes and points whose node index fits an int.',
 'The tests try a handful of points; rounding direction matters exactly at centres and for negative indices.',
 ['src/cpu/grid.cc'],[('floor of the scaled offset','src/cpu/grid.cc: Grid::baseNodeId')]),
p('C04','Fields behave as one independent value per cell',
 'A new field is zero in every cell of the padded box and has exactly one value per cell. A value written to a cell, by coordinates, node id or slot, is what every way of reading that cell returns, and no other cell changes. Assigning a field copies every cell, after which the two fields do not influence each other.',
 ['inputs','histories','configurations'],'All grids, all pairs of cells, all values; scalar, vector, matrix and small-vector fields.',
 'Tests write and read single cells of small fields; non-interference is a statement about all pairs of cells and about every access path.',
 ['src/cpu/array.cc',U+'array.h'],[('access operators over one storage vector','src/cpu/array.cc: Array::operator(), operator[], operator=')]),
p('C05','Second-order central gradient of a scalar field',
 'For every field, each interior cell receives, per axis of the grid, the difference of its two neighbours along that axis over twice the cell size. The differentiated field, the ghost layer of the result and components along other axes are left alone, and nothing outside the padded box is read or written.',
 ['inputs','configurations'],'All grids with padding of at least 1, all field values, all cells.',
 'The tests differentiate one smooth function on a small cubic grid with equal spacing; swapped axes, wrong spacings or missed boundary cells need other fields and grids.',
 ['src/cpu/gradient/second-order-central.cc','src/cpu/gradient.cc'],[('central difference loop','src/cpu/gradient/second-order-central.cc: SecondOrderCentral::compute'),('dispatch','include/gals/cpu/gradient.h: Gradient::compute')]),
p('C06','Third-order upwind-biased gradient of a scalar field',
 'For every field, each interior cell receives, per axis of the grid, (2 f(+1) + 3 f(0) - 6 f(-1) + f(-2)) over six cell sizes. The differentiated field, the ghost layer of the result and components along other axes are left alone, and nothing outside the padded box is read or written.',
 ['inputs','configurations'],'All grids with padding of at least 2, all field values, all cells.',
 'The tests use one smooth function with a tolerance; the stencil has to hold for every field, cell and anisotropic spacing.',
 ['src/cpu/gradient/third-order.cc'],[('biased difference loop','src/cpu/gradient/third-order.cc: ThirdOrder::compute')]),
p('C07','Gradient of a vector field',
 'For every vector field and both difference schemes, entry (r, s) of the gradient of an interior cell is the difference quotient of component r along axis s. Entries of axes the grid does not have, the ghost layer and the differentiated field are left alone.',
 ['inputs','configurations'],'All grids with enough padding (1 for the central, 2 for the third-order scheme), all vector fields, all cells and entries.',
 'No test differentiates a vector field in which the components or the spacings differ enough to tell (r, s) from (s, r).',
 ['src/cpu/gradient/second-order-central.cc','src/cpu/gradient/third-order.cc'],[('vector overloads','src/cpu/gradient/*.cc: compute(Array<Vec3>, Array<Mat3>)')]),
p('C08','Hermite interpolation reproduces the tensor cubic interpolant',
 'For every level set with arbitrary nodal values, gradients and mixed derivatives and every point of the padded centre box, the interpolated value is the tensor-product cubic Hermite interpolant of the cell that contains the point. Nothing outside the padded box is read.',
 ['inputs','configurations'],'All grids with padding of at least 1, all nodal data, all points (lower boundary of a cell included), one to three dimensions.',
 'The tests interpolate one function at a few points with a tolerance; a wrong coefficient that vanishes for symmetric data passes.',
 ['src/cpu/interpolation/hermite-1d.cc','src/cpu/interpolation/hermite-2d.cc','src/cpu/interpolation/hermite-3d.cc','include/gals/cpu/interpolation/hermite.h'],
 [('Bernstein form of the interpolant','include/gals/cpu/interpolation/hermite.h: get_control_points, B0..B3'),('per-dimension interpolation','src/cpu/interpolation/hermite-*.cc: interpolate')]),
p('C09','Interpolated gradient is the exact derivative of the interpolant',
 'For every level set and every point of the padded centre box, the interpolated gradient is, along each axis of the grid, the exact derivative of the interpolated value; it is zero along other axes.',
 ['inputs','configurations'],'All grids with padding of at least 1, all nodal data, all points, one to three dimensions.',
 'Consistency of value and gradient for arbitrary data cannot be sampled: tests use one function and loose tolerances.',
 ['src/cpu/interpolation/hermite-1d.cc','src/cpu/interpolation/hermite-2d.cc','src/cpu/interpolation/hermite-3d.cc'],
 [('derivative basis','include/gals/cpu/interpolation/hermite.h: B0_Prime..B3_Prime')]),
p('C10','Gradient limiting follows the published rules on every cell edge',
 'With limiting on, the value and slope along a cell edge are those of the cubic whose two inner control values were replaced by the first applicable limiting rule (overshoot at the start, overshoot at the end, slopes on opposite sides of the secant), and unchanged if none applies. In one and two dimensions, where no rule applies on any edge of the cell, limited and unlimited interpolation agree everywhere in the cell.',
 ['inputs','configurations'],'All grids with padding of at least 1, all nodal data, all points of cell edges along each axis; ties between rules included.',
 'No test turns limiting on with data that triggers each rule, or its ties.',
 ['include/gals/cpu/interpolation/hermite.h','src/cpu/interpolation/hermite-2d.cc','src/cpu/interpolation/hermite-3d.cc'],
 [('limiter','include/gals/cpu/interpolation/hermite.h: get_control_points')]),
p('C11','Linear interpolation of a line field',
 'For every field on a line and every point of the padded centre range, linear interpolation returns the weighted mean of the two enclosing nodes. Interpolating a whole field, possibly onto another grid, does this for every target cell and changes neither the source field, nor the points, nor the ghost layer of the target.',
 ['inputs','configurations'],'All pairs of line grids, all source fields, all target points.',
 'The test interpolates one function between two fixed grids.',
 ['src/cpu/interpolation/linear-1d.cc','src/cpu/interpolate.cc'],[('two-point formula','src/cpu/interpolation/linear-1d.cc: linearInterpolation'),('target loop','src/cpu/interpolation/linear-1d.cc: compute')]),
p('C12','Whole-field interpolation treats every cell alike and keeps its input',
 'Interpolating a level set at one arbitrary point per cell stores, for every interior cell, the interpolated value and gradient at that cell\'s own point. The previous and current level set, their gradients and mixed derivatives and the ghost layers of the results are left alone.',
 ['inputs','configurations'],'All grids with padding of at least 1, all level sets, all assignments of points of the padded centre box to cells.',
 'Tests interpolate at the cell centres or one shift; a result stored for the wrong cell, or input overwritten on the way, needs point sets that differ per cell.',
 ['src/cpu/interpolation/hermite-1d.cc','src/cpu/interpolation/hermite-2d.cc','src/cpu/interpolation/hermite-3d.cc','src/cpu/interpolate.cc'],
 [('field loop','src/cpu/interpolation/hermite-*.cc: compute'),('dispatch','include/gals/cpu/interpolate.h')]),
p('C13','Semi-Lagrangian step: values and gradients follow the characteristics',
 'One step gives every interior cell the previous interpolant\'s value at the foot of its characteristic (cell centre minus time step times velocity), and the previous interpolant\'s gradient there multiplied by the Jacobian of the map from the centre to the foot. Previous fields, the velocity gradient and the ghost layers are left alone.',
 ['inputs','configurations','histories'],'All grids with padding of at least 1, all time steps, velocities, velocity gradients and previous level sets for which the feet lie in the padded centre box.',
 'The tests advect one circle with uniform velocity, where the Jacobian is the identity and transposition errors are invisible.',
 ['src/cpu/temporal-schemes/semi-lagrangian/euler.cc','src/cpu/temporal.cc'],[('foot and Jacobian','src/cpu/temporal-schemes/semi-lagrangian/euler.cc: compute')]),
p('C14','A step at rest changes nothing; translation of a cubic is exact',
 'A semi-Lagrangian step with zero velocity or with zero time step leaves the level set and its gradient of every interior cell unchanged. With a uniform velocity, a level set that is a cubic polynomial per axis is translated exactly, value and gradient.',
 ['inputs','configurations'],'All grids with padding of at least 1, all level sets (at rest), all cubics and all displacements that stay in the padded centre box.',
 'Tests check one translation of a circle with a tolerance of the order of the method error.',
 ['src/cpu/temporal-schemes/semi-lagrangian/euler.cc','src/cpu/interpolation/hermite-1d.cc','src/cpu/interpolation/hermite-2d.cc','src/cpu/interpolation/hermite-3d.cc'],
 [('advection step','src/cpu/temporal-schemes/semi-lagrangian/euler.cc: compute')]),
p('C15','Explicit Euler step updates each cell from its own data',
 'One explicit Euler step gives every interior cell its previous value minus the time step times the first convection component of that cell. Everything else is left alone: previous fields, gradients, mixed derivatives, velocity and ghost layers.',
 ['inputs','configurations'],'All grids, all time steps, all level sets and velocities.',
 'The test runs one step on constant data, where cells are indistinguishable.',
 ['src/cpu/temporal-schemes/euler.cc','src/cpu/temporal.cc'],[('update loop','src/cpu/temporal-schemes/euler.cc: compute')]),
p('C16','Small vectors and matrices obey their algebra',
 'Three-component vectors, three-by-three matrices and fixed-size vectors return, for every content, the component that was stored (row-major for matrices), start at zero, and copy by value. Difference, scaling, component-wise product and quotient, transposed matrix-vector product, magnitude and minimum are the mathematical ones and leave their operands alone. Two of them are equal exactly if every component agrees within 1e-10 (exactly, for integers).',
 ['inputs'],'All component values, ties and negative values included.',
 'Tests check a few distinct positive values; ties in a minimum or one differing component among nine are not sampled.',
 ['src/cpu/vec3.cc','src/cpu/mat3.cc','src/cpu/vec_n.cc',U+'utilities.h'],[('operators','src/cpu/vec3.cc, src/cpu/mat3.cc, src/cpu/vec_n.cc')]),
p('C17','Analytical circle level set is the signed distance',
 'A circle (sphere) description with any centre and radius gives every interior cell the distance of its position to the centre minus the radius. An unknown shape name leaves the level set alone; positions, gradient, previous fields and the ghost layer are always left alone.',
 ['inputs','configurations'],'All grids, positions, centres and radii.',
 'The tests of this part do not even build offline; they use one circle.',
 ['src/cpu/analytical-fields/levelset.cc'],[('distance loop','src/cpu/analytical-fields/levelset.cc: compute')]),
p('C18','Analytical rotation velocity and its gradient agree',
 'A rotation description gives every interior cell of a plane or space grid the velocity of a solid rotation with angular velocity pi/3.15 about the given centre, with no component along z. If the gradient scheme is analytical, every interior cell also receives the exact gradient of that field in the x and y entries (entries that involve z are kept or zero); otherwise gradients are left alone, and an unknown field name changes nothing.',
 ['inputs','configurations'],'All two- and three-dimensional grids, positions, centres and times.',
 'The tests of this part do not build offline; they use one centre at which position and centre errors cancel.',
 ['src/cpu/analytical-fields/velocity.cc'],[('rotation and gradient loops','src/cpu/analytical-fields/velocity.cc: compute')]),
p('C19','Input descriptions carry exactly what the document says',
 'After reading an input document, every field of every section that is present has the value of its own key, and every section that is absent leaves its fields as they were, in any combination of present and absent sections.',
 ['inputs','configurations'],'All documents whose present sections are complete, lists of three numbers where a point or the cell counts are expected; all 32 combinations of sections.',
 'The test parses one document and checks nothing.',
 ['src/cpu/input-parser.cc','src/cpu/input-parser/general.cc','src/cpu/input-parser/grid.cc','src/cpu/input-parser/time.cc','src/cpu/input-parser/velocity.cc','src/cpu/input-parser/levelset.cc','src/cpu/input-parser/input-parser-base.cc','src/cpu/input-fields/input-fields.cc'],
 [('section dispatch','src/cpu/input-parser.cc: InputParser::parse'),('field assignment','src/cpu/input-parser/*.cc: parse')]),
p('C20','Production builds refuse what is not supported, and nothing else',
 'In a production build, making a point from a list whose length is not three, asking for a rotation on a line, linear interpolation of a level set and Hermite interpolation of a field without gradients terminate the program before any memory outside its objects is touched. A list of three values and a rotation in the plane or in space do not terminate it.',
 ['inputs','configurations'],'All list lengths and contents, all grids.',
 'The test build compiles the refusals out, so no test can see them.',
 ['include/gals/utilities/utilities.h','src/cpu/vec3.cc','src/cpu/analytical-fields/velocity.cc','src/cpu/interpolation/linear-1d.cc','include/gals/cpu/interpolation/hermite.h'],
 [('abort macros','include/gals/utilities/utilities.h')]),
p('C21','Level set and velocity keep each of their fields apart',
 'A new level set holds eight fields (value, gradient and mixed derivatives (none on a line, one in the plane, four in space), now and at the previous time, and the interpolated value and gradient), a new velocity holds a velocity and a velocity gradient; all of them start at zero, have one value per cell of the padded box and are attached to the grid they were made for. Every accessor, const or not, gives its own field: what is written to one is read back there and changes no other field, and two level sets or velocities of the same grid share nothing. The description of an interpolated point starts at zero and copies by value; an analytical field reports the grid it was made for.',
 ['inputs','histories','configurations'],'All grids, all cells, all values, one to three dimensions.',
 'Tests read single accessors of small level sets; that no two of ten accessors reach the same storage, in any cell, is not sampled.',
 ['include/gals/cpu/levelset.h','src/cpu/levelset.cc','include/gals/cpu/levelset-velocity.h','src/cpu/levelset-velocity.cc'],
 [('accessors','include/gals/cpu/levelset.h, include/gals/cpu/levelset-velocity.h'),('construction from a grid','src/cpu/levelset.cc, src/cpu/levelset-velocity.cc')]),
p('C22','A field is written as one line per interior cell',
 'Writing a field to a stream gives exactly one line per interior cell, x slowest and z fastest, with the three coordinates of the cell centre (zero along axes the grid does not have), a tab after each, and the value; vectors are written as their components separated by tabs, matrices and fixed-size vectors with a tab after every entry. The field is not changed and the stream is returned. Writing a field to a file leaves exactly that text in the named file, whatever it held before, and leaves other files alone.',
 ['inputs','histories','configurations'],'All grids with any padding, all field values, all file names; scalar, vector, matrix and fixed-size vector fields; files written again.',
 'The only test of the file utilities needs a library that is not there offline, and writes one field; order, ghost cells and missing cells need grids with different counts per axis.',
 ['include/gals/utilities/array.h','include/gals/utilities/vec3.h','include/gals/utilities/mat3.h','include/gals/utilities/vec_n.h','src/cpu/file-utils.cc'],
 [('output operators','include/gals/utilities/array.h, vec3.h, mat3.h, vec_n.h: operator<<'),('file','src/cpu/file-utils.cc: FileUtils::write')]),
p('C23','File utilities act on the path they are given and report what happened',
 'Asking whether a file exists gives the answer of the file system for that path and changes nothing. Removing a file or a directory does just that to exactly the path given and reports whether it succeeded. Creating a directory succeeds without doing anything if the path exists, and otherwise creates exactly that path and reports whether it succeeded. The root directory is the one set last on that object, and setting it touches no file.',
 ['inputs','histories','fault_sequences'],'All path texts, all answers of the file system (existing or not, success or failure).',
 'Failures of the file system are not produced by a test; the file utilities are not even built offline.',
 ['src/cpu/file-utils.cc','include/gals/utilities/file-utils.h'],[('file utilities','src/cpu/file-utils.cc')]),
]
open('../properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
NOTE='Unbounded proof over all grids, cells and values of the current source; assumes exact real arithmetic for doubles, successful allocation and the assumed contracts of the C++ standard library listed in the evidence. Obligations the verifier cannot decide after a change are reported in the evidence as bounded (tested on concrete inputs), never as proved.'
extra={'C19':' The YAML library is replaced by its assumed contract (harness/yaml).','C22':' The file system library is replaced by its assumed contract (harness/fs); numbers are compared by value, their spelling is left to the C++ library.','C23':' The file system library is replaced by its assumed contract (harness/fs).','C20':' Sources are compiled without BUILD_TESTS.','C01':' The body of the grid index is verified here; all other checks use its contract.'}
M={'version':1,'setup_cmd':'true','hooks':{'guard':'none','enable':'no hooks: contracts live in /verif/harness and call the unmodified functions of /repo','source_commits':[]},
'checks':[{'property':x['id'],'quick_cmd':'python3-vt check.py %s quick'%x['id'],'thorough_cmd':'python3-vt check.py %s thorough'%x['id'],'technique':'contract-based deductive verification of the compiled source (symbolic execution with loop summaries, polynomial identities, SMT)','level':'proof','level_note':NOTE+extra.get(x['id'],'')} for x in P],
'not_applicable':[]}
json.dump(M,open('../MANIFEST.json','w'),indent=1)
