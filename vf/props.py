#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 vf/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
CFG="src/Configuration/"
p("C01","A well-formed configuration script means exactly what it says",
  "Loading a well-formed configuration script (from a string, a file or standard input) yields exactly the tree the text denotes: every block with its registered type, name and optional secondary type (the block's name if none is given) nested where it was written, and every setting with its name and its values in order. Comments, the amount and kind of whitespace (space, tab, newline), commas between values and quotation marks around text never change that tree, quoted text is taken literally, a setting assigned again in the same block takes the last values, and a block opened again (same type and name in the same parent) continues the earlier one. No error is reported for such a script.",
  ["inputs","programs"],"every well-formed script text (any layout, quoting, nesting depth, number and length of values), every set of registered block types, and each of the three loading routes",
  "The configuration test loads two fixed example files and compares a few settings; it never varies layout, quoting, comments, nesting, redefinition or length.",
  [CFG+"Script/Lexer.cpp",CFG+"Script/Interpreter.cpp",CFG+"Script/ConfigurationScript.cpp",CFG+"ConfigBlock.cpp"],
  [("character reader and tokenizer",CFG+"Script/Lexer.cpp: nextc, gettkn, Lex"),("statement interpreter",CFG+"Script/Interpreter.cpp: Interpret"),("tree construction",CFG+"ConfigBlock.cpp: AddSetting, AddSubBlock")],
  ["the tree returned by loading (types, names, secondary types, settings, values)","the error flag"])
p("C02","Malformed configuration scripts are always reported, safely",
  "Loading any text that is not a well-formed configuration script ends, within bounded time and without touching memory it does not own, with the error reported: the configuration's error flag is set or a library exception is raised. In particular unbalanced braces, missing names, values, equals signs or terminators, unterminated quotations or inclusions, inclusion of a missing file and (directly or indirectly) self-including files are reported wherever in the text they occur.",
  ["inputs","fault_sequences"],"every text (byte 0 excluded), including every truncation and every one-token deletion, insertion or substitution of a well-formed script, and any nesting of inclusions",
  "The tests only load two correct files; no malformed text is ever loaded.",
  [CFG+"Script/Lexer.cpp",CFG+"Script/Interpreter.cpp",CFG+"Script/ConfigurationScript.cpp"],
  [("token expectation and error recovery",CFG+"Script/Interpreter.cpp: expect, advanceTo, Interpret"),("end-of-input handling",CFG+"Script/Lexer.cpp: nextc, Lex")],
  ["error flag","exception type","termination"])
p("C03","Included configuration files are spliced in place",
  "Loading a script that includes other files between statements gives exactly the tree of the script with each inclusion replaced by the included file's text, to any inclusion depth, in any order and number, with the same file includable several times. Text after the inclusion keeps its meaning, and whether an error is reported is the same as for the spliced text.",
  ["inputs","programs"],"every set of files and every script whose inclusions stand where a statement may stand",
  "No test includes a file at all.",
  [CFG+"Script/Lexer.cpp"],[("inclusion with saved and restored reading position",CFG+"Script/Lexer.cpp: include_file, Lex")],
  ["the loaded tree and error flag"])
p("C04","Typed reads of a script setting agree with its type tests",
  "For every setting of a configuration script and every value in it, the type tests (boolean, 32/64-bit signed and unsigned integer, scalar, numeric vector) never fail themselves, answer yes exactly when the whole text of the value is a literal of that type within the type's range, and whenever a test answers yes the corresponding read returns the number or truth value that the text denotes. Tests without an index answer yes only for a setting with exactly one value (numeric vectors: every value is a number, and the length is the one asked for), and reading a value that does not exist is reported by an exception.",
  ["inputs"],"every value text (signs, leading zeros, range limits of each type, exponents, trailing characters, special names) and every number of values",
  "The test reads about ten literals of each kind, never range limits, trailing characters or mixed vectors.",
  [CFG+"Script/SettingScript.cpp",CFG+"Setting.cpp"],
  [("type tests and conversions",CFG+"Script/SettingScript.cpp: Is*, Get*"),("boolean literals",CFG+"Setting.cpp: StringToBool")],
  ["return values and exceptions of the type tests and typed reads"])
p("C05","Merging configurations overrides, adds or reports, and nothing else",
  "After merging configuration B into A, every setting of A also present in B (same path of block types and names) has B's values, every other setting and block of A is unchanged and in its old order, and B itself is unchanged. When new entries are allowed, everything found only in B exists afterwards in A as A's own independent copy, appended in B's order, and nothing is reported; when they are not, A gains nothing and the merge returns the names of exactly the settings and blocks found only in B (nothing at all if there are none).",
  ["inputs","histories"],"every pair of configuration trees and every sequence of merges, including merging several sources into one target and later changing or destroying a source",
  "One test merges one fixed pair of files and looks at a few values.",
  [CFG+"ConfigBlock.cpp",CFG+"Configuration.cpp"],[("recursive merge",CFG+"ConfigBlock.cpp: Merge, MergeSetting, AddSetting, AddSubBlock"),("root merge",CFG+"Configuration.cpp: Merge")],
  ["trees of both operands after each merge","returned list of unknown names"])
p("C06","Unused settings are exactly the ones never looked up",
  "A setting of a block counts as used exactly if it has been looked up by name (or read through the block's indexing operator) since it was created; the list of unused settings of a block contains exactly the others, in definition order, and the yes/no query agrees with that list. Asking whether a setting exists, listing settings or blocks, merging into it, redefining it, copying its block or looking up other names does not make it used.",
  ["histories"],"every interleaving of definitions, redefinitions, lookups (hit or miss), existence queries, merges and copies",
  "No test calls the unused-settings queries.",
  [CFG+"ConfigBlock.cpp",CFG+"Setting.cpp"],[("touch on lookup",CFG+"ConfigBlock.cpp: GetSetting, GetUntouchedSettings, HasUntouchedSettings"),("flag",CFG+"Setting.cpp: Touch, Touched")],
  ["list of untouched settings after every operation"])
p("C07","Copies of configurations are deep and self-consistent",
  "A copy of a configuration, block or setting has the same observable contents (block types, names, secondary types, settings, values, order, registered block types, error flag) as the original at the time of copying, every block in the copy has the copy's own enclosing block as parent, and no later change to or destruction of either one is visible in the other.",
  ["histories"],"every tree shape and every sequence of changes to, and destruction of, original and copy after copying",
  "No test copies a configuration.",
  [CFG+"ConfigBlock.cpp",CFG+"Configuration.cpp",CFG+"Script/SettingScript.cpp"],[("copy constructors",CFG+"ConfigBlock.cpp: ConfigBlock(const ConfigBlock*)"),("root copy",CFG+"Configuration.cpp: Configuration(const Configuration&)")],
  ["both trees, with parent links, after every later operation"])
p("C08","Lookups reflect exactly the history of additions",
  "After any sequence of block-type registrations and of additions of settings and sub-blocks, the queries of a block (existence, lookup and listing of settings and of sub-blocks, by name, by type, or by type and name) return exactly the entries added and not replaced, in order of first addition and with every enclosing link correct; lookups that miss return nothing, or raise an exception where a value was demanded. Block types get distinct identifiers in order of registration, and registering a name twice is refused without any other effect.",
  ["histories"],"every sequence of registrations, additions (new or repeated names) and queries",
  "Tests query two fixed trees built from files.",
  [CFG+"ConfigBlock.cpp",CFG+"Configuration.cpp"],[("block storage and queries",CFG+"ConfigBlock.cpp"),("type registry",CFG+"Configuration.cpp: RegisterBlockType, IsBlockType, StringToBlockType")],
  ["results of every query"])
p("C09","Typed binary settings convert consistently",
  "A setting holding typed data (booleans, 32/64-bit signed or unsigned integers, reals or text) reports exactly its stored values, as any type that can hold them; its type tests answer yes only for reads that then return the stored value, copying or overwriting it reproduces the values exactly with independent storage, and conversions it does not support are reported by an exception.",
  ["inputs","histories"],"every element type, length and element value, and every sequence of set, overwrite, copy and read",
  "No test touches these settings.",
  [CFG+"SFile/SettingSFile.cpp"],[("typed union and conversions",CFG+"SFile/SettingSFile.cpp")],
  ["return values, exceptions"])
p("C10","Errors in scripts name the file and line of the mistake",
  "When a configuration script is refused, the first error reported (on standard error or, if loading throws, in the exception) is of the form file:line:column: message, and names the source the mistake is in (the name given to the loader, \"stdin\", or the included file) and the line of the first token that cannot continue a script: a misplaced word or punctuation mark, the inclusion of a file that is missing or being read already, any line of an unterminated quotation or inclusion, or the end of the text for a block or statement left open. Blank lines, comments, line breaks in quoted text, earlier inclusions and the length of the text do not disturb the numbering; the column and later errors are not specified, and an exception's line number agrees with its message.",
  ["inputs"],"every malformed text, whatever its layout, its length and the files it includes",
  "No test looks at where an error is reported.",
  [CFG+"Script/Lexer.cpp",CFG+"Script/Interpreter.cpp"],[("line counting, inclusions",CFG+"Script/Lexer.cpp: nextc, gettkn, include_file"),("error reports",CFG+"Script/Interpreter.cpp: expect, Interpret")],
  ["standard error, exceptions"])
SF="src/SFile/"
p("S01","What is written to a data file is read back unchanged",
  "Any value written to a data file by the library (text free of NUL characters, list of numbers, matrix of numbers, 32/64-bit signed or unsigned integer list or matrix, single number) is read back through the same interface, after closing and reopening the file, with the same shape and exactly the same elements, in every supported format (text format, HDF5, MATLAB; the text format, being double precision by specification, is exact for integers up to 2^53). Variables do not influence one another, whatever their number, order and size.",
  ["inputs","configurations"],"every format, every supported kind of value, every shape and every element value (extremes, negative zero, infinities and NaN included) and every set of variable names",
  "The format tests write one fixed set of small variables and compare reals to within a tolerance.",
  [SF+"SFile.cpp",SF+"SFile_SDT.cpp",SF+"SFile_SDT.load.cpp",SF+"SFile_HDF5.cpp",SF+"SFile_MAT.HDF5.cpp"],
  [("text writer/reader",SF+"SFile_SDT.cpp, SFile_SDT.load.cpp"),("HDF5 writer/reader",SF+"SFile_HDF5.cpp"),("MATLAB writer/reader",SF+"SFile_MAT.HDF5.cpp")],
  ["shape and elements returned by the read calls"])
p("S02","A data file contains exactly what its history wrote",
  "After any sequence of opening (for reading, writing or updating), writing, creating groups, closing and reopening data files - with one handle or several, one after the other - a reader sees exactly the variables of the last writing session plus those later update sessions added, each with the value last written (HDF5 and MATLAB files refuse to write a variable twice), and nothing else. Opening for writing starts from empty, opening for update keeps what is there, closing is idempotent, and one handle object opened on another file shows only that file.",
  ["histories","configurations"],"every interleaving of sessions on a few files, in every format and mode",
  "Tests write one file once and read it once.",
  [SF+"SFile.cpp",SF+"SFile_SDT.cpp",SF+"SFile_SDT.load.cpp",SF+"SFile_HDF5.cpp",SF+"SFile_MAT.HDF5.cpp"],
  [("open/close per format",SF+"SFile_*.cpp: Open, Close"),("variable directory",SF+"SFile.cpp, SFile_SDT.load.cpp")],
  ["variable existence and contents after every session"])
p("S03","Reading a data file is repeatable and leaves it unchanged",
  "Reading a variable any number of times, in any order and interleaved with reads and queries of other variables, always returns the same contents, and what is returned belongs to the caller: changing or releasing it affects neither later reads nor the file. Reading never modifies the file.",
  ["histories"],"every order and repetition of reads and queries, with results modified and released in between",
  "Each test reads every variable once.",
  [SF+"SFile.cpp",SF+"SFile_SDT.cpp",SF+"SFile_HDF5.cpp",SF+"SFile_MAT.HDF5.cpp"],[("read calls",SF+"SFile_*.cpp: Get*")],["results of repeated reads","file bytes before and after"])
p("S04","Absent or unsuitable data is reported, never invented",
  "Asking for a variable, attribute or file that does not exist, for a list (GetList) from something that is not one-dimensional, for a scalar from something that is not one number, for text from numbers, for numbers from text (in the formats that keep them apart: text format and HDF5), or for a format that is not supported raises a library exception, and the existence query and the reported data type of a variable agree with what was written. A failed request leaves the handle usable and everything else readable.",
  ["inputs","fault_sequences"],"every kind of missing or mismatching request against every kind of stored variable, in every format, followed by any further reads",
  "Only one test asks for one missing variable.",
  [SF+"SFile.cpp",SF+"SFile_SDT.cpp",SF+"SFile_HDF5.cpp",SF+"SFile_MAT.HDF5.cpp"],[("existence and type queries",SF+"SFile_*.cpp: HasVariable, GetDataType"),("error conversion",SF+"SFile_*.cpp: catch blocks")],["exception type","subsequent reads"])
p("S05","Attributes and multi-dimensional arrays survive in structured formats",
  "In the structured formats (HDF5, MATLAB), scalar and text attributes attached to variables, arrays of any number of dimensions, and variables stored inside groups are read back with the values, dimension sizes and element order they were written with, and never disturb other variables or attributes. A MATLAB file carries the header MATLAB expects, naming the date of its creation.",
  ["inputs","histories"],"every number of dimensions (1 to 6), sizes, element values, group nesting and set of attributes",
  "The tests write one attribute of each kind and one multi-dimensional array.",
  [SF+"SFile_HDF5.cpp",SF+"SFile_MAT.HDF5.cpp",SF+"SFile.cpp"],[("attributes",SF+"SFile_HDF5.cpp: WriteAttribute_*, GetAttribute*"),("multi-dimensional arrays",SF+"SFile_HDF5.cpp: WriteMultiArray, GetMultiArray_linear")],["returned dimensions, elements, attribute values"])
p("S06","Data files are readable by any reader of their format",
  "A file the library has written is an ordinary file of its format: an independent reader finds exactly the variables and groups that were written, under their path names, with the element type, shape and elements that were given, text as text, and the attributes attached to them. In MATLAB files, matrices, multi-dimensional arrays, text and structures carry the MATLAB class they have to have (double, int32, int64, uint32, uint64, char, struct) and text is stored as 16-bit character codes; in the text format each variable is one definition with its name, size and elements, and the last definition of a name counts.",
  ["inputs","histories"],"every format, element type, shape, text, group nesting, attribute and order of writes; names without blanks, text without NUL",
  "The tests read files only through the library itself, so a matching pair of mistakes in writing and reading is invisible.",
  [SF+"SFile_HDF5.cpp",SF+"SFile_MAT.HDF5.cpp",SF+"SFile_SDT.cpp"],[("writing of the structured formats",SF+"SFile_HDF5.cpp: Write*"),("MATLAB labels",SF+"SFile_MAT.HDF5.cpp: WriteMATLAB_class, Write*"),("text format",SF+"SFile_SDT.cpp: Write*")],["contents of the file as seen by the HDF5 C library or a plain text scanner"])
MG="src/MagneticField/"
p("D01","The domain test separates inside from outside",
  "A segment between two points crosses the device boundary, according to the library, exactly if the segment between their positions in the poloidal plane meets the boundary polygon, and a single point is outside exactly if the segment from the magnetic axis to it does; toroidal angle never matters. This holds for every boundary polygon, convex or not, with any number and orientation of edges, including edges parallel to the segment.",
  ["inputs"],"every closed polygon around the magnetic axis and every pair of points in general position (no end point on the boundary, no vertex on the segment)",
  "One fixed 34-point wall and 42 fixed points are tried.",
  [MG+"MagneticField2D.cpp"],[("segment/edge intersection",MG+"MagneticField2D.cpp: CrossesDomain")],["returned truth value"])
p("D02","The reported extents of the domain are the true extents",
  "The minimum and maximum radius and height reported for a field's domain are the exact extremes of the boundary currently set, also after the boundary is replaced; the outermost and innermost radius reported at a given height are the largest and smallest radius at which the boundary polygon meets that height.",
  ["inputs","histories"],"every closed polygon, every height within its range, and every sequence of boundary replacements and queries",
  "The tests never ask for domain extents.",
  [MG+"MagneticField2D.cpp"],[("bounds",MG+"MagneticField2D.cpp: GetDomainBounds, SetDomain"),("radial extremes",MG+"MagneticField2D.cpp: FindMaxRadius, FindMaxMin..., GetMaxRadius")],["reported numbers"])
p("D03","Three-dimensional lines of sight hit the wall exactly when they do",
  "The library reports that the straight line between two points in space is obstructed exactly if it meets the axisymmetric surface swept by the boundary polygon, whatever the direction of the line or the orientation of the boundary's edges, vertical and horizontal ones included.",
  ["inputs"],"every polygon and every pair of points in general position",
  "No test calls the three-dimensional test.",
  [MG+"MagneticField2D.cpp"],[("cone/line intersection",MG+"MagneticField2D.cpp: IntersectsDomain3D")],["returned truth value"])
p("M01","Numeric magnetic fields keep their data through save, load and clone",
  "A numeric magnetic field (and its magnetic flux, if any) takes at its grid points the values it was given, is exact for data that are bilinear in R and Z (values, Jacobian, curl, gradient of the strength, flux derivatives), uses the toroidal symmetry and component rotation of cylindrical coordinates, and outside its grid has the value of the nearest grid point at the same toroidal angle. A field saved to a file and loaded again, or cloned, has the same name, description, axis, grid, components, flux, separatrix, wall, domain and extents as the original and evaluates identically. Data that cannot be used (grids too small or not increasing, matrices or contours of the wrong shape, missing data, failed verification vectors, neither wall nor separatrix) are refused with an exception, after which the file can be replaced and loaded; matrices and contours may be stored transposed.",
  ["inputs","histories"],"every grid shape, field data, presence or absence of flux, wall and separatrix, file format, and history of creating, saving, loading, cloning, reloading and destroying fields",
  "The test loads one fixed file and compares sample points.",
  [MG+"MagneticFieldNumeric2D.cpp"],[("load/save/clone",MG+"MagneticFieldNumeric2D.cpp: Load, Save, Clone, Init, InitInterpolation"),("evaluation",MG+"MagneticFieldNumeric2D.cpp: Eval, __EvalJacobian, EvalDerivatives, EvalFlux, EvalFluxDerivatives")],["evaluated components and derivatives","getters","exceptions"])
p("M02","The analytical magnetic field, its flux and all its derivatives belong together",
  "The analytical magnetic field is B = B0/R (sI Z/q R^ + sB Rm phi^ + sI (Rm-R)/q Z^) with flux sI pi B0 r^2/q (Z and r measured from the magnetic axis, q the chosen safety factor profile of r over the minor radius, signs positive for counter-clockwise); the returned Jacobian is the derivative of the field, the curl and the gradient of the strength are those of the Jacobian, the divergence vanishes and the flux derivatives are those of the flux, on the magnetic axis too. The domain is the circle of the minor radius about the axis; clones, and fields converted to a numeric grid (at its grid points, flux included), agree with the original, and setting the field strength affects nothing else.",
  ["inputs","histories"],"every safety factor profile, sign combination, parameter set, point off the axis of symmetry, and sequence of cloning and changing the field strength",
  "The test samples one parameter set at a few points.",
  [MG+"MagneticFieldAnalytical2D.cpp",MG+"MagneticFieldAnalytical2D.q.cpp"],[("field and derivatives",MG+"MagneticFieldAnalytical2D.cpp: Eval, EvalDerivatives, EvalFlux, EvalFluxDerivatives"),("safety factor",MG+"MagneticFieldAnalytical2D.q.cpp"),("conversion",MG+"MagneticFieldAnalytical2D.cpp: ToNumeric2D, Clone")],["evaluated values"])
p("M03","LUKE equilibria become numeric fields on their own grid",
  "Loading a LUKE equilibrium gives a numeric magnetic field on the grid of its normalised flux, shifted to the magnetic axis: at every grid point the components are the tabulated ones interpolated linearly in the flux and in the poloidal angle of the point (0 to 2 pi, continued linearly beyond the last flux surface), the flux is the normalised one times that of the last closed surface, the separatrix is the outermost tabulated surface, and the wall (if a wall file is named, its points stored in either order) is the domain, the separatrix otherwise. The name is that of the equilibrium. Copies, and the field saved and loaded as an ordinary numeric field, agree with it. Files with missing variables, matrices that do not match their grids, grids that are too small or not in order, or a malformed wall are refused with an exception, after which the file can be replaced and loaded.",
  ["inputs","histories"],"every equilibrium and wall file content (valid or with one mismatch), file format, and history of loading, reloading, replacing the wall, cloning and converting",
  "No test loads an equilibrium.",
  [MG+"MagneticFieldLUKE.cpp"],[("loading and interpolation",MG+"MagneticFieldLUKE.cpp: Load"),("wall",MG+"MagneticFieldLUKE.cpp: LoadWall")],["evaluated components and flux at grid points","getters","exceptions"])
DF="src/DistributionFunction/"
p("F01","Radial interpolation is linear between the stored radii",
  "A numeric distribution function assembled from momentum distributions at a set of radii, inserted in any order, evaluates at radius r to the linear interpolation between the two neighbouring stored radii (the stored value at a stored radius, at the first and last radius included), continues the straight line through the two outermost radii beyond the ends when extrapolation is permitted, and is refused with an exception outside the stored range when it is not; a single stored radius gives its value at every radius; drift shift is subtracted from the radius first; clones evaluate identically.",
  ["inputs","histories"],"every set of radii, every order of insertion, every radius and drift shift, with and without extrapolation permission",
  "The stable tests only cover a momentum-space distribution.",
  [DF+"NumericDistributionFunction.cpp"],[("nearest-radius search",DF+"NumericDistributionFunction.cpp: __FindNearestR"),("insertion",DF+"NumericDistributionFunction.cpp: InsertMomentumSpaceDistribution, Initialize"),("evaluation",DF+"NumericDistributionFunction.cpp: Eval")],["evaluated values","exceptions"])
p("F02","Gridded momentum distributions reproduce their table",
  "A gridded momentum-space distribution returns the tabulated value at every grid point and the bilinear interpolant between them when linear interpolation is selected (in logarithmic mode the exponential of the interpolated logarithm, and zero where a non-positive entry contributes), zero outside the grid, and with flipped pitch sign the value at the opposite pitch; a clone agrees with it everywhere. Grids that are not strictly increasing or are too small to interpolate in are refused with an exception, and the caller's table is not changed unless in-place use was requested.",
  ["inputs","configurations"],"every grid, table, evaluation point and combination of modes",
  "One smooth table is compared to within 10%.",
  [DF+"NumericMomentumSpaceDistributionFunction.cpp"],[("table lookup",DF+"NumericMomentumSpaceDistributionFunction.cpp: Eval, Initialize, InitializeLog, MinClone")],["evaluated values"])
p("F03","Radial profiles and products respect their support and clones agree",
  "Each radial profile is zero outside its radial interval (lower limit included, upper limit excluded), follows its formula inside it (with x the position in the interval from 0 to 1: uniform 1, linear 1-x, power 1-x^b, Bessel J0 of its first zero times x; Gaussian a exp(-((r-b)/c)^2)), depends only on radius minus drift shift, and refuses an empty interval; a distribution built from a momentum part and a profile is their product, uniform if no profile is given. Clones evaluate identically to the original.",
  ["inputs"],"every interval, exponent, radius and drift shift",
  "No stable test evaluates a profile.",
  [DF+"LinearRadialProfile.cpp",DF+"PowerRadialProfile.cpp",DF+"GaussianRadialProfile.cpp",DF+"BesselRadialProfile.cpp",DF+"RadialDistributionFunction.cpp"],[("support test",DF+"*RadialProfile.cpp: Eval"),("product",DF+"RadialDistributionFunction.cpp: Eval")],["evaluated values"])
p("F04","Distribution files load the requested slice or are refused",
  "Loading a distribution function file (SOFT, CODE, GO+CODE, DREAM or LUKE layout) yields the distribution stored for the requested time slice and radius (negative time counts from the end), placed at the stored radius plus the magnetic axis (as stored, if no field is given to the SOFT or DREAM reader), and a time or radius index that does not exist, a grid that is not increasing or has too few points for the chosen interpolation, a table whose size does not match its grids or a file of another type is refused with an exception; the legacy SOFT layout is read likewise. Cloning a loaded distribution does not change it anywhere, whatever the interpolation chosen, nor does converting it to a grid at the grid's points.",
  ["inputs","configurations"],"every file content of the stated layouts (valid or with one mismatch) and every requested index",
  "One fixed file is loaded and compared to within a tolerance.",
  [DF+"SOFTDistributionFunction.cpp",DF+"CODEDistributionFunction.cpp",DF+"GOCODEDistributionFunction.cpp",DF+"DREAMDistributionFunction.cpp",DF+"LUKEDistributionFunction.cpp"],[("loaders",DF+"*DistributionFunction.cpp: Load, __Load, LoadMomentumSpace")],["evaluated values","exceptions"])
p("G01","Progress is reported once, in order, whatever the interleaving",
  "The items to be worked off are divided into as many groups as there are marks to print, as equal as possible and the larger groups first; a report of an item number prints the next outstanding mark exactly if the number has reached the end of that mark's group. However many threads report and however they interleave, every report takes effect as a whole: each mark is printed at most once, in increasing order, and when items are reported in order all marks (as many as there are items, if fewer) have been printed once the last one is reported. With no marks to print nothing is printed.",
  ["schedules","histories"],"every interleaving of any number of reporting threads, every number of items and of marks",
  "No test uses the progress tracker.",
  ["src/General/ProgressTracker.cpp"],[("critical section around the mark",  "src/General/ProgressTracker.cpp: PrintProgress")],["printed lines"])
p("G02","Timers account for exactly the time they ran",
  "A timer reports exactly the total time between its starts (or continuations) and stops since it was last reset, plus the current running stretch if it is running; stopping freezes it (stopping again changes nothing), continuing a stopped timer adds to it, resetting begins again from zero, and two timers never influence each other, one made as a copy of the other included.",
  ["histories"],"every sequence of start, stop, continue, reset and reads at arbitrary times",
  "No test uses timers.",
  ["src/General/Timer.cpp"],[("accumulation","src/General/Timer.cpp: Start, Stop, Continue, Reset, GetElapsed...")],["reported elapsed times"])
p("G03","Elapsed times are split and printed without loss",
  "The days, hours, minutes, seconds, milliseconds and microseconds a timer reports are each within their range and together equal the elapsed time exactly (to the microsecond), and the text forms, of timers and of the progress tracker, show the same numbers, colours apart.",
  ["inputs"],"every elapsed time from zero to several years",
  "No test uses timers.",
  ["src/General/Timer.cpp"],[("decomposition","src/General/Timer.cpp: __GetTimeStruct / ToString")],["decomposition","text"])
p("G04","Error messages arrive complete",
  "An exception raised with a format and arguments carries exactly the formatted text, of whatever length, and every copy of it carries the same text; configuration errors additionally carry the position they were raised with.",
  ["inputs"],"every message length and argument mix",
  "No test looks at a message.",
  ["include/softlib/SOFTLibException.h","include/softlib/ConfigurationException.h","src/General/SOFTLibException.cpp"],[("formatting","include/softlib/SOFTLibException.h: ConstructErrorMessage")],["message text"])
p("G05","Generated images show the data, pixel for pixel",
  "An image generated from a matrix has one pixel per element, with rows of the matrix shown as columns of the image, coloured by the chosen colour map: its first colour at or below its lower limit, its last at or above its upper limit, however far, and the two neighbouring colours mixed in proportion in between. The picture is the same in every output format, and an image that cannot be written is reported with an exception.",
  ["inputs"],"every matrix shape, element values, colour map and format",
  "No test generates an image.",
  ["src/ImageGenerator/ImageGenerator.cpp","src/ImageGenerator/ImageGeneratorPPM.cpp","src/ImageGenerator/ImageGeneratorPNG.cpp"],[("normalisation","include/softlib/ImageGenerator/ImageColormap.h"),("writers","src/ImageGenerator/*.cpp")],["pixels of the file"])
p("G06","Progress lines tell the time passed and the time to go",
  "Every progress line shows the mark and the number of marks, the time since the tracker was made and the time since the mark before (since the tracker was made, for the first), to the millisecond. When estimates are asked for it also shows how long the marks still to come will take, and the sum of that and the time passed: each of them as long as the last one or, if the last one took longer than the one before, each by that much longer than the one before it; so the estimate is exact when the work per mark is constant or grows evenly. Colours change nothing in the text.",
  ["inputs","histories"],"every number of items and marks, every sequence of report times, marks that come late because reports were left out included",
  "No test uses the progress tracker.",
  ["src/General/ProgressTracker.cpp","include/softlib/ProgressTracker.h"],[("lines","src/General/ProgressTracker.cpp: PrintProgressLines"),("estimate","src/General/ProgressTracker.cpp: EstimateRemainingTimeDeterministic")],["progress lines on standard output"])
p("N01","The integrator's history is consistent with its equation",
  "The Runge-Kutta solver advances strictly, each accepted step continues the previous solution point with the values of the fifth-order Dormand-Prince method (exact for right-hand sides polynomial in time up to fourth degree), a step whose estimated error exceeds the tolerance is never stored, the next step is never larger than the scale factors allow and never grows after a rejection, stored times and solutions are those of the accepted steps in order and are never changed by later steps, restarting from a new initial value forgets all earlier steps, and dense output returns the stored values at stored times and stays within the interval integrated.",
  ["histories","inputs"],"every sequence of initialisations, steps and output requests, for every step-size history (accepted and rejected attempts)",
  "Two fixed equations are integrated once and compared to a tolerance.",
  ["include/softlib/Integrator/Integrator.tcc","include/softlib/Integrator/RungeKutta.tcc","include/softlib/Integrator/RKDP45.tcc"],[("solution storage","include/softlib/Integrator/Integrator.tcc"),("step control","include/softlib/Integrator/RungeKutta.tcc: Step"),("dense output","include/softlib/Integrator/RungeKutta.tcc: OutputDense")],["times and solutions returned"])
p("V01","Vector arithmetic obeys linear algebra",
  "Sums, differences, scalar products and multiples, cross products, norms, assignments and compound assignments of vectors give the mathematically exact result for operands with exactly representable results, never modify their operands (other than the assigned one) and tolerate the same vector, or one of its own elements as the scalar, on both sides.",
  ["inputs","programs"],"every dimension, component values and sequence of operations including self-assignment",
  "No test exercises the vector type directly.",
  ["include/softlib/Vector.h","include/softlib/General/Vector.tcc"],[("operators","include/softlib/General/Vector.tcc")],["components after every operation"])
p("V02","Matrix arithmetic obeys linear algebra",
  "Sums, differences, products, scalar multiples, matrix-vector and vector-matrix products, outer products, assignments and compound assignments of matrices give the mathematically exact result for operands with exactly representable results and never modify their operands (other than the assigned one).",
  ["inputs","programs"],"every shape, element values and sequence of operations",
  "No test instantiates the matrix type.",
  ["include/softlib/Matrix.h","include/softlib/General/Matrix.tcc"],[("operators","include/softlib/General/Matrix.tcc")],["elements after every operation"])
p("Q01","Peaked integration sums exactly the samples it should",
  "Integration around a peak adds the function's value at the peak and at every whole number of spacings to either side that lies inside the limits, until both sides have dropped to the cut-off (the last pair with half weight), moves to a higher point if it meets one, and never evaluates to a sum in which samples outside the limits count.",
  ["inputs"],"every sampled unimodal function, spacing, cut-off and limits",
  "No test calls it.",
  ["src/Integration/PeakedIntegration.cpp"],[("summation","src/Integration/PeakedIntegration.cpp: Evaluate")],["returned value"])
p("A01","Analytical momentum distributions match their formulas",
  "The analytical momentum distributions have their closed-form values: exp(C|xi|) for the exponential pitch distribution; exp(-D p (1-xi^2)/|xi|)/(p|xi|) with D = (E+1)/(2(Zeff+1)), from pMax on multiplied by exp(-((p-pMax)/deltaP)^2) unless deltaP is zero, for the Connor-Hastie distribution; m c A/(2 pi g0 p^2) exp(-g/g0 - A(1-|xi|))/(1 - exp(-2A)) with g = sqrt(p^2+1), A = (E+1)/(Zeff+1) g and g0 = lnLambda sqrt(Zeff+5) for the avalanche distribution. They are even in the pitch, do not depend on radius or drift, and clones and re-initialised objects follow the same formulas with their own parameters.",
  ["inputs","histories"],"every parameter set and point with non-zero momentum (and pitch), and every history of initialising, cloning and destroying",
  "Tests sample a few points with a tolerance.",
  [DF+"AnalyticalAvalanche.cpp",DF+"ConnorHastieDistribution.cpp",DF+"ExponentialPitch.cpp"],[("closed forms",DF+"AnalyticalAvalanche.cpp, ConnorHastieDistribution.cpp, ExponentialPitch.cpp: Eval, Initialize, MinClone")],["evaluated values"])
p("T01","Separate objects, clones included, may be used by separate threads",
  "Magnetic fields, distribution functions, radial profiles, integrators, peaked integrations, vectors and matrices, script configurations, exceptions and text-format data files keep no state outside the object: when several threads work at the same time, each with an object of its own (one of them the original and the others clones of it, or made separately), every call of every thread returns (or refuses with) what it does when that thread runs alone, whatever the interleaving of the threads' steps, also while other threads clone, replace or change the settings of their own objects; no two threads ever access the same memory unsynchronised.",
  ["schedules","histories"],"every number of threads, sequence of calls per thread and interleaving of the steps of these calls",
  "No test uses threads.",
  [DF+"*.cpp",MG+"*.cpp","src/Configuration/*","include/softlib/Integrator/*.tcc"],[("clones",DF+"*.cpp: MinClone; "+MG+"*.cpp: Clone"),("work space of evaluations",MG+"MagneticFieldNumeric2D.cpp: Eval, __EvalJacobian; "+DF+"CODEDistributionFunction.cpp: Eval")],["returned values","exceptions"])
if __name__=="__main__":
    import sys
    for x in P:
        assert len(x["title"])<=80,x["title"]
        print(json.dumps(x))
