VGN = 'Every path of each analysed function is covered (all branches are gates of its value graph); equality with the reference graph is by algebraic normal form where that closes, otherwise by random interpretation of both graphs (probabilistic, one-sided). Floating point is treated as real arithmetic. '
NOTE['C01'] = VGN + 'Tolerance 1e-6.'
NOTE['C02'] = VGN + 'Travel ranges are those the code accepts (minimum below maximum); the margin of the reach test is the one in the code.'
NOTE['C03'] = VGN + 'Absolute astronomical accuracy is not decided; constants (epoch, rates, latitude) are compared with the documented values.'
NOTE['C04'] = VGN + 'Stages are opaque functions or modelled by C03 and C05; the optics tables are not looked into.'
NOTE['C05'] = VGN + 'Convergence loops are evaluated as fixed points for any small smooth distortion field (amplitude below 1% of the field radius).'
NOTE['C06'] = 'Value graphs of all 33 terms compared with independently generated vector polynomials; norms and orthogonality by quadrature of the graphs, exact for their degree.'
TECH['C06'] = VG + '; exact quadrature over the extracted graphs'
NOTE['C11'] = 'Decides names, not values: table columns, dictionary keys of data and attributes of objects of unknown class are not decided; loops are taken to run at least once for definite assignment. Installed libraries are introspected for names and signatures (the repository is never imported).'
TECH['C11'] = 'scope resolution, path-sensitive definite-assignment dataflow, import and signature resolution over all modules and scripts against the installed libraries'
NOTE['C07'] = 'Every class with a writer and a reader is found in the source; states: as constructed, arbitrary values, all-zero values, without optional results; the JSON text is an opaque snapshot (number formatting of the library is trusted). Array sizes are those of the constructor, or 2 by 3 where it defines none.'
TECH['C07'] = 'abstract interpretation: reader composed with writer over an abstract heap with an opaque text snapshot, per-attribute comparison of value graphs and shapes'
NOTE['C10'] = 'Every reader call reached from any library function, in both configurations of the environment variable; paths given by the caller are outside the property. Scripts that maintain the packaged files themselves are not covered.'
TECH['C10'] = 'forward interprocedural dataflow of path values with the environment lookup decided per configuration'
NOTE['C08'] = 'Every parameter of each of the 312 public functions of the pinned tree; third-party functions are taken to modify only their documented output arguments; methods of objects of unknown class are judged by name (append, sort, fill, ...).'
TECH['C08'] = 'interprocedural alias and effect analysis (parameters, views, containers, attributes, nested functions) to a fixed point over the call graph, specialised to constant options'
NOTE['C09'] = 'The ray tracing module, whose tables are module variables by design, and the logger cache are excluded. Attributes that a fit keeps or starts from by definition (rotation and scale as start values, fixed distortion terms, pointing inputs) are listed in the check.'
TECH['C09'] = 'dataflow over state that survives a call (module globals, defaults, class and instance attributes) with dependence on arguments and cache keys, plus a call query for random draws and process settings'

NOTE['C13'] = 'Fits are interpreted on 3 to 8 general points (coordinates free), with the linear solver as exact elimination; iterative optimisers are opaque: decided is what they are given to minimise and what is done with their answer, not their convergence. The tangent plane recovery holds to 1e-6 rad for corrections up to 36 arcsec.'
TECH['C13'] = 'abstract interpretation to value graphs of the fits on general points; normal equations and symbolic derivatives compared as polynomial identities by value numbering and random interpretation'
NOTE['C14'] = 'The table is read as data by the analysis; the interpolation routine of the library is taken at its documentation (increasing abscissae).'
TECH['C14'] = 'abstract interpretation to value graphs over the lookup table, canonical form of table interpolations, monotonicity of the table columns'
NOTE['C12'] = 'The neighbour searches and the assignment solver of the library are replaced by their contract; every coincidence pattern of the neighbours and every order of the distances of up to four objects (five for triangles) is a case, distances and coordinates staying symbolic. Larger catalogs follow only as far as the functions treat their rows alike.'
TECH['C12'] = 'abstract interpretation to value graphs over order types: trace partitioning by coincidence pattern of neighbours and order of the symbolic distances; comparison of the resulting pairs with the specification'
NOTE['C15'] = 'Rows of unknown origin are never compared; array arguments of one function are taken to hold the same rows unless the code itself matches, joins or compares them as two catalogs. Loops are run two or three times and joined.'
TECH['C15'] = 'abstract interpretation of every function and script in a domain of row spaces (root table, selections, sorts, deletions, matches); each meeting of two row spaces is an obligation'
NOTE['C16'] = 'The matches, the external program, file reads and fits are replaced by stand-ins that return chosen partners (all matched, missing, duplicate, too far, other order) for symbolic coordinates; identity columns are constants. Decided for these patterns of partners; other patterns and sizes follow only as far as the code treats its rows alike.'
TECH['C16'] = 'abstract interpretation to value graphs over tables of symbolic rows: trace partitioning by pattern of matches; every output column compared with the row it was matched to'
NOTE['C17'] = 'The optimiser, the circle fit and the coordinate transforms (decided by C01, C13) are stand-ins; decided is what the optimiser is given and what is done with its answer, not its convergence. Histories of 3 to 9 moves with symbolic angles and positions; distances at outlier rejection are exact rationals.'
TECH['C17'] = 'abstract interpretation to value graphs over symbolic histories of moves with an opaque optimiser; objective, parameter mapping and results compared with reference graphs'
NOTE['C18'] = 'The fit (decided by C17), the conversion to petal coordinates (C05), file input and date parsing are stand-ins with known answers; tables are modelled. Decided for 15 histories of 10 to 36 moves with symbolic angles and positions (orders, repeated moves, windows, exposures, forced rehome, notes) and 13 kinds of failure.'
TECH['C18'] = 'abstract interpretation to value graphs over symbolic histories in a table model: what each fit is given and every column of the report compared with the specification'
NOTE['C19'] = 'Names and comments are tags, numbers and integers are enumerated: six families of definitions with bits up to 70, all integers below 40 for the small ones, and the two tables of the package. Other definitions follow only as far as the class treats its bits alike.'
TECH['C19'] = 'abstract interpretation of the bit mask class over families of definitions: every lookup compared with the definition it came from, refusals included'
NOTE['C20'] = 'The smoothed image is a pattern of levels (trace partitioning over 50 patterns of peaks, levels, edges, counts and close detections), the pixels of the image are symbols; the centroid fit (C21), the random subsample of pixels and the neighbour search of the library are stand-ins. Images with more than ten thousand peaks are not covered.'
TECH['C20'] = 'abstract interpretation of the detection over images of symbolic pixels: origin of every stamp cell and every column of the list compared with the pattern'
NOTE['C21'] = 'Stamps of 3 to 5 pixels (up to 7 in the thorough tier) with symbolic pixels; graphs of the whole iteration compared by random interpretation in six regions that select its branches (tolerance 1e-6). Accuracy on real spots is not decided.'
TECH['C21'] = 'abstract interpretation to value graphs, symbolic derivative of the profile, comparison with a fit written from its definition by value numbering and random interpretation'
NOTE['C22'] = 'Graphs for two or three fibers with symbolic positions, offsets and parameters compared by random interpretation (the linear algebra of the libraries is modelled by elimination and Cholesky factors); the minimiser is a stand-in whose objective is compared; selections of stationary fibers and polynomial fits are decided on 24 scenes of rational positions. Convergence of the minimiser and the gain in accuracy are not decided.'
TECH['C22'] = 'abstract interpretation to value graphs with symbolic linear algebra, compared with Gaussian process graphs written from the definition by random interpretation; trace partitioning by scene for selections'

NOTE['C23'] = 'Single surfaces (conics, flats, polynomials; mirror, lens, retro, iris, phantom) with every kind of ray near representative points, tables with permuted columns, ray groups that lose any subset of rays; the roll of a surface beyond the rotation matrix and the plotting are outside.'
TECH['C23'] = 'abstract interpretation to value graphs of the ray trace with symbolic rays and surfaces (trace partitioning near a point), compared with vector optics written from the laws by random interpretation'

NOTE['C24'] = 'The radial polynomials are taken from the source as graphs of one variable and evaluated on every row of their tables and a mesh of 0.05 to 0.8 mm (0.02 mm in the thorough tier); the least squares fit of the table is solved in exact arithmetic.'
TECH['C24'] = 'abstract interpretation to value graphs; graphs of one variable compared with the tables read as data'
NOTE['C25'] = 'Symbols near representative angles of every regime (sign, size, whole revolutions, direction) and every mixture of single values, arrays and lists.'
TECH['C25'] = 'abstract interpretation to value graphs by trace partitioning near a point, compared with the travel written from the definition'
NOTE['C26'] = 'Image processing driver interpreted for option settings covering each option, with stand-ins that record what is read, passed on and written. File names are decided for one set of paths; the contents of the tables are C16, the detection C20 and C21.'
TECH['C26'] = 'abstract interpretation of the driver to value graphs and to the sequence of its file effects, compared with those the options ask for'
NOTE['C27'] = 'Functions of the file exchange interpreted with stand-ins for files, program and transform on a metrology of 12 devices with symbolic positions; the words of each line are compared as terms. What the program does with the files is outside; reading its result back is C16.'
TECH['C27'] = 'abstract interpretation of the file writers and of the command construction to symbolic text, compared word by word with what the metrology and the arguments ask for'
NOTE['C28'] = 'Selection interpreted on a catalogue of 12 stars with exact numbers on both sides of each limit; the fit with stand-ins for the transforms that record their arguments; rotation and rates as value graphs. The transforms themselves are C03, C04, C05, the least squares fit C13; the coefficients of the empirical rate are those of the repository.'
TECH['C28'] = 'abstract interpretation of selection, fit and rotation to exact numbers and value graphs, compared with the rows and arguments asked for'
