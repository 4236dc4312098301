from __main__ import P, NA  # noqa

NOTE = ("Exhaustive TLC check of the model within the bounds in DESIGN.md, every emitted behaviour replayed into the real code and "
        "judged by TLC; beyond those bounds seeded random behaviours. Trusts TLC, the driver's float-to-grid conversion and DESIGN.md's input domain. ")

P("P01", "Compiled neighbour lists contain exactly the atoms within the cutoff",
  "For every crystal (atoms inside or outside the cell, none closer than 0.1 angstrom to another), cutoff, set of periodic directions and legal bin size, the compiled neighbour list (the nblist Python extension and the C++ "
  "neighbour list class) lists for each atom exactly the periodic images strictly closer than the cutoff, each once, each with the index of the "
  "atom it is an image of and the vector to it. Images are taken along periodic directions only; an atom is not its own neighbour but its images may be. Arrays handed to the extension count by their contents (float64 lattice and positions, int32 atomic numbers), in whatever memory layout.",
  ["inputs", "configurations"], "all lattices (skewed, permuted, left- and right-handed), 1..n atoms inside the cell or some cells away, all 8 periodicity choices, all cutoffs, default and explicit bin sizes",
  "The C++ tests print one fixed MoS2 cell; the Python tests never build the extension, and no test compares with an independent enumeration.",
  ["source/nblist/include/neighborList.h", "source/nblist/include/binLinkedList.h", "source/nblist/include/structure.h", "source/nblist/bind/nblist_bind.cc", "source/nblist/bind/nblist.i"],
  [("bins sized by the cutoff, 27-cell search, strict distance test", "binLinkedList.h, neighborList.h"), ("supercell extension from interplanar distances", "binLinkedList.h")],
  NOTE + "Distances exactly at the cutoff are covered only where floating point is exact (dyadic inputs).", ["nblist.find_neigh reply", "NeighborList getters"])

P("P02", "Neighbour tables have the documented layout, are ordered and symmetric",
  "A neighbour table of requested width holds, for each atom in order, its neighbours first and padding (index -1, zero vector) after them, gives every atom "
  "its species, and, when sorting is asked for, lists neighbours from near to far. If j is listed for i with vector v then i is listed for j with -v; counts equal the number of used entries. A reply of the extension that is dropped gives its memory back.",
  ["inputs", "configurations"], "all queries whose table width is at least the largest neighbour count, sorted or not",
  "Tests read no table cell by cell and use one width and one structure.",
  ["source/nblist/include/neighborList.h", "source/nblist/bind/nblist_bind.cc"],
  [("flattening of the per-atom lists into fixed-width tables", "neighborList.h find_info4mlff"), ("sort by distance", "neighborList.h")],
  NOTE, ["nblist.find_neigh reply", "NeighborList::find_info4mlff"])

P("P03", "C++ objects have value semantics through copy, assignment and move",
  "Through any history of constructing, copying, assigning (also to itself or from an empty object), moving, changing in place and destroying objects of the C++ classes "
  "(structures, supercells, bin lists, neighbour lists, environment matrices, radial bases, MTP parameters and levels), every live object shows the value it was given, "
  "objects never share or corrupt each other's state, assignment yields its target, no memory error occurs, and destroying every object gives all their memory back.",
  ["histories"], "all operation histories over several objects of each class, default-constructed objects included",
  "Tests copy each class at most once from a non-empty object and never assign to themselves, from empty objects, or destroy in another order.",
  ["source/nblist/include/structure.h", "source/nblist/include/binLinkedList.h", "source/nblist/include/neighborList.h", "source/descriptor/deepmd/include/se.h",
   "source/descriptor/mtp/include/mtpMRadial.h", "source/descriptor/mtp/src/mtpLevel.cc", "source/descriptor/mtpr/include/basis.h", "source/descriptor/mtpr/src/mtpParam.cc"],
  [("hand-written copy/move constructors, assignment operators and destructors over malloc'ed arrays", "all classes above")],
  NOTE + "All transitions of a two-slot (thorough: three-slot) model; memory errors are observed with AddressSanitizer and UBSan.", ["digest of all public getters after each step"])

P("P04", "C++ supercells tile the crystal and report the original atoms and counts",
  "Replicating a structure by any positive scaling yields every lattice translate of every atom exactly once with its species and the scaled lattice; the owned atoms reported for a supercell are "
  "the untranslated original atoms in their order. Derived quantities (cell lengths, interplanar distances, coordinate limits, maximum neighbour counts per species, pair counts) agree with the structure they describe.",
  ["inputs", "configurations"], "all lattices and scalings, even and odd, every structure the neighbour list accepts",
  "Tests use one structure and odd scalings and print most results.",
  ["source/nblist/include/structure.h", "source/nblist/include/binLinkedList.h", "source/nblist/include/neighborList.h"],
  [("make_supercell / calc_owned_atom_idxs", "structure.h, binLinkedList.h"), ("get_max_num_neigh_atoms*", "neighborList.h")],
  NOTE, ["Structure, Supercell and NeighborList getters"])

P("P05", "Python neighbour tables list exactly the copies in reach, nearest first",
  "For every structure, cutoff and odd replication (given before building the table), the neighbour table has one row per atom, atoms in ascending atomic number and otherwise in their order; "
  "a row starts with its centre and then lists, from near to far and each with its own element, position and distance, exactly the atoms of the replicated structure within the cutoff. "
  "Rows are as wide as the fullest one and the unused rest is zero.",
  ["inputs", "configurations"], "all cells, atoms inside or outside the home cell, all odd replications, all cutoffs no distance is exactly equal to",
  "The tests only print tables for one stored structure.",
  ["matersdk/io/publicLayer/neigh.py", "matersdk/io/publicLayer/structure.py"],
  [("replicate, sort by distance, cut, pad", "neigh.py StructureNeighborsV1"), ("centres found in the replica", "structure.py get_key_idxs")], NOTE,
  ["StructureNeighborsDescriptor.create(\"v1\") attributes"])

P("P06", "Neighbour counts and PWmat index lists agree with the neighbour table",
  "The largest neighbour count, over all elements or per neighbour element, is the true maximum over all atoms of the neighbours within the cutoff inside the replica (0 for an absent element). "
  "An index list has one row per centre of the elements asked for, in the order asked for, and in it one segment of the requested width per neighbour element "
  "naming, from near to far, the 1-based index in the original structure of the atom each neighbour is a copy of, then 0.",
  ["inputs", "configurations"], "all structures, cutoffs, odd replications, centre and neighbour element orders, and widths at least as large as needed",
  "The tests use one structure and one element order and assert nothing.",
  ["matersdk/io/publicLayer/neigh.py", "matersdk/io/publicLayer/structure.py"],
  [("count and index helpers", "neigh.py StructureNeighborsUtils"), ("tracing copies back modulo the lattice", "structure.py get_site_index")], NOTE,
  ["StructureNeighborsUtils replies"])

P("P07", "Python supercells hold every copy once around the original cell",
  "Replicating a structure by odd factors yields, for each atom, exactly one copy per translation by -(s-1)/2..(s-1)/2 lattice vectors along each direction, with its element, in the lattice scaled by the factors. "
  "On request atoms are ordered by ascending atomic number, otherwise the original cell comes first, unmoved; the reported key indices name the original atoms, by ascending atomic number, inside the ordered replica.",
  ["inputs", "configurations"], "all cells (skewed, left-handed), atoms inside or outside the home cell, all odd factors",
  "The tests replicate one stored structure and write files without comparing them.",
  ["matersdk/io/publicLayer/structure.py"], [("translation order, cartesian placement", "structure.py make_supercell_, get_key_idxs, get_bidx2aidx_supercell")], NOTE,
  ["DStructure.make_supercell_, get_key_idxs"])

P("P08", "Adjacency matrices count the copies of each atom in reach of each atom",
  "The adjacency matrix of a structure, cutoff and odd replication has as entry (i, j) the number of copies of atom j, itself at distance zero excluded, within the cutoff of atom i in the replica; it is symmetric. "
  "Even factors are refused.",
  ["inputs", "configurations"], "all structures, cutoffs and replications", "One structure is tried and the matrix printed.",
  ["matersdk/feature/graph/edge.py"], [("distance thresholding and folding of the replica", "edge.py AdjacentMatrix")], NOTE, ["AdjacentMatrix.get_adjacent_matrix"])

P("P09", "Editing a structure keeps every atom's element, position and moment together",
  "Through any sequence of sorting by atomic number (stable), picking elements in a requested order (a new structure; the source stays as it was) and removing vacancies (and nothing else), every remaining atom keeps its own element, position and magnetic moment. "
  "Atom totals count in ascending atomic number or the order asked for, a position equal to a site modulo the lattice is traced to that site's 1-based index (0 if there is none), the centroid is the mean Cartesian position, "
  "and a direction has vacuum when its cell length exceeds the atoms' Cartesian extent by more than 10 angstrom.",
  ["inputs", "histories"], "all structures with or without magnetic moments and vacancies, all sequences of these operations",
  "Tests apply each operation once to one file and print the result.",
  ["matersdk/io/publicLayer/structure.py"], [("reformat_elements(_), remove_vacanies, get_natoms, get_site_index, get_centroid, judge_vacuum_exist", "structure.py")], NOTE, ["sites and site_properties after each step"])

P("P10", "atom.config files read back as the structure that was written",
  "Writing any structure to atom.config (with or without its magnetic moments) and reading it back, as a file or as text, gives the same lattice, atoms in order, elements, fractional coordinates and moments within the format's printed precision; "
  "the same holds for POSCAR with right-handed cells, and the element tables name and number all elements 1..118 inversely. "
  "The readers accept section titles in any letter case, optional stress columns, and force and magnetic sections in any order, and report a missing section as zeros.",
  ["inputs", "configurations"], "all structures, including vacancies (element 0) for the extractors, and every layout of the optional sections",
  "Tests read one stored file and print it.",
  ["matersdk/io/pwmat/utils/acextractor.py", "matersdk/io/publicLayer/structure.py", "matersdk/io/pwmat/utils/parameters.py"],
  [("section lookup and column parsing", "acextractor.py"), ("writer", "structure.py to / from_file / from_str")], NOTE,
  ["DStructure.from_file/from_str/to, ACExtractor, ACstrExtractor getters"])

P("P12", "MOVEMENT trajectories are read frame by frame without mixing quantities",
  "For every trajectory whose frames have the same atoms count and the same optional sections, MVExtractor reports the number of frames and, for any frame asked for in any order, that frame's own box, elements, coordinates, total energy, forces (zero where the file has none), "
  "and, where the file has them, its virial, atomic energies and magnetic moments, in the order of the labels it announces. The whole-file reply holds every frame once, in file order, and equals the frame replies.",
  ["inputs", "histories"], "all trajectories, both header forms, every set of optional sections (a velocity section may be missing from the first frame), every sequence of queries",
  "The test reads one file and prints shapes.",
  ["matersdk/io/pwmat/utils/mvextractor.py", "matersdk/io/pwmat/utils/acextractor.py", "matersdk/io/pwmat/utils/lineLocator.py"],
  [("chunk boundaries located by keyword, frames cut by line number", "mvextractor.py"), ("per-frame parser", "acextractor.py ACstrExtractor")], NOTE,
  ["MVExtractor.get_frame_info, get_frames_info, get_info_labels"])

P("P13", "Labelled data sets export every frame once, in parts of the requested size",
  "A data set read from a trajectory holds all its frames in file order with species as 0-based indices into the element list (ascending atomic number, or the list given) and its chemical composition. "
  "Exporting it writes consecutive parts of the requested size (the last may be shorter) that together hold every quantity of every frame exactly once, and the element list. An existing export is refused and left untouched.",
  ["inputs", "configurations"], "all trajectories, element lists covering them, and part sizes from 1 to beyond the number of frames",
  "The test exports one trajectory with one part size and looks at nothing.",
  ["matersdk/data/infosets.py", "matersdk/data/infoset.py"],
  [("slicing by part size", "infoset.py to_dir")], NOTE, ["InfoSet.from_file, to_dir, the exported .npy and type_map.raw files"])

P("P14", "Merging trajectories of a directory tree neither loses nor mixes frames",
  "Reading a directory tree collects every file of the given name (letter case ignored) at any depth into one data set per chemical composition; each set holds the frames of all its files, file by file, "
  "with the optional quantities all of them have, its own composition and one common element list. The total frame count is the sum over the files, and exporting writes every set in full.",
  ["inputs", "configurations"], "all directory trees of readable trajectories",
  "The test reads one tree and prints it.",
  ["matersdk/data/infosets.py", "matersdk/data/infoset.py"],
  [("grouping by formula and concatenation", "infosets.py InfoSets.from_dir")], NOTE, ["InfoSets.from_dir, to_dir"])

P("P15", "Movement reports each frame's own structure, energies, virial and limits",
  "For every trajectory and frame, Movement reports that frame's structure, its total, potential and kinetic energies (with either header form), its virial (zero where the file has none) and its cell volume, "
  "and over all frames the largest neighbour count within a cutoff.",
  ["inputs", "histories"], "all trajectories and every sequence of queries", "The tests need files that are not in the repository and fail.",
  ["matersdk/io/pwmat/output/movement.py", "matersdk/io/pwmat/utils/lineLocator.py", "matersdk/io/pwmat/utils/acextractor.py"],
  [("frame chunks by keyword", "movement.py get_chunksize, get_frame_structure")], NOTE, ["Movement getters"])

P("P11", "Readers see files as they are now and leave them as they are",
  "A reader made after a file was (re)written, by absolute name or by a name relative to the current directory, answers from the file's present content, whatever was read before from this or another file; "
  "a reader kept while its file is rewritten never answers with content the file did not have since the reader was made. Reading changes, adds and removes no file. "
  "This holds for structures (atom.config, POSCAR), MOVEMENT, REPORT, OUT.FERMI, IN.KPT, DOS and fat-band files.",
  ["histories"], "all histories of writing and rewriting files in two directories, changing directory, making, keeping and asking readers",
  "No test writes a file twice or changes directory between reads.",
  ["matersdk/io/pwmat/utils/acextractor.py", "matersdk/io/pwmat/utils/mvextractor.py", "matersdk/io/pwmat/output/report.py", "matersdk/io/pwmat/output/outfermi.py",
   "matersdk/io/pwmat/output/dostotalspin.py", "matersdk/io/pwmat/output/fatabandstructureTxt.py", "matersdk/io/pwmat/output/movement.py", "matersdk/io/pwmat/input/inkpt.py",
   "matersdk/io/publicLayer/structure.py", "matersdk/data/infoset.py"],
  [("files opened or cached by path", "all readers")], NOTE, ["getter replies decoded to the version of the file they come from, directory contents after each step"])

P("P16", "Band energies, edges, gap and metal verdict follow from the eigen energies",
  "Report returns every eigen energy at its spin, k-point and band; a material is a metal (no edges) exactly if some band of some spin has energies on both sides of the Fermi energy (OUT.FERMI rounded to 1e-3 eV). "
  "Otherwise the conduction band minimum is the least energy above and the valence band maximum the greatest below the Fermi energy, each reported with the 1-based band numbers and spins of all states at one k-point where it is reached that lie within 1e-3 eV of it, each once. "
  "The gap is their difference and is direct exactly if they share a k-point.",
  ["inputs"], "all REPORT files, spin-polarised or not, any number of bands and k-points, energies with 4 decimals at least 2e-4 eV from the Fermi energy",
  "The tests need files that are not in the repository and fail.",
  ["matersdk/io/pwmat/output/report.py", "matersdk/io/pwmat/output/outfermi.py"],
  [("blocks of five energies per line, up spins first", "report.py get_eigen_energies"), ("edge search", "report.py get_cbm, get_vbm, get_bandgap, get_bandgap_type")],
  NOTE + "Where several k-points reach an edge, any of them may be reported.", ["Report and OutFermi getters"])

P("P17", "Projected densities and fat bands are summed per element and never mixed",
  "The projection on an element is the sum over that element's own columns at every energy (density of states) or at every k-point of every band (fat bands), also when element symbols begin alike; total and orbital tables hold every value of the file in place, "
  "orbitals are found by name whatever the letter case, and fat-band results are one table per band in file order. Readers of the same or of different files, opened and closed in any order, do not affect each other.",
  ["inputs", "histories"], "all tables of projections, with # or without, Total or total, any elements and orbitals, all histories of opening, asking and closing readers",
  "The tests need files that are not in the repository and fail.",
  ["matersdk/io/pwmat/output/dostotalspin.py", "matersdk/io/pwmat/output/fatabandstructureTxt.py", "matersdk/io/pwmat/utils/lineLocator.py"],
  [("column selection by prefix or pattern", "get_pdos_elements, get_element_dfs_lst, get_orbital_dfs_lst")], NOTE, ["returned data frames"])

P("P18", "k-points are placed, ordered and counted as the lattice and density demand",
  "IN.KPT is read as its points, weights and labels in file order; reciprocal coordinates are those of the given lattice in 1/angstrom (bohr variants times 0.529177249); the band-plot axis starts at 0, advances by the distance between consecutive points and stands still across a jump (two labelled points in a row). "
  "For every primitive cubic, tetragonal, orthorhombic and hexagonal lattice the points of high symmetry and paths (those in the plane for dimension 2) are the lattice's, HIGHK lists each point, and gen.kpt each segment with its length over the density rounded up. "
  "A k-mesh has along each direction the reciprocal length (no 2 pi) over the density, rounded, at least 1, and 1 along vacuum; irreducible points carry weights adding up to the mesh.",
  ["inputs", "histories"], "all k-point files, lattices, densities and query orders; existing output files are replaced",
  "The only passing test is empty; the others need files that are not in the repository.",
  ["matersdk/io/pwmat/input/inkpt.py", "matersdk/calculation/kpath/kpathSampler.py", "matersdk/calculation/kpoints/kmesh.py", "matersdk/calculation/kpoints/kpointsSampler.py"],
  [("jump detection from adjacent labels", "inkpt.py"), ("segment lengths in reciprocal space", "kpathSampler.py output_gen_kpt"), ("rounding and vacuum", "kmesh.py")], NOTE,
  ["Inkpt, KpathSampler, KMesh, KPointsSampler replies; HIGHK and gen.kpt files"])

P("P19", "Python environment matrices and their normalisation follow DeepPot-SE",
  "For every structure, odd replication, smooth cutoff below cutoff and centre and neighbour species, the pair descriptor has one row per centre holding its neighbours' species, distance and offset from near to far, and beside each its row (s, s x/r, s y/r, s z/r), "
  "s = 1/r inside the smooth cutoff, 1/r times u^3(-6u^2+15u-10)+1 up to the cutoff, 0 from there on, with its derivative by the centre's position; padding is zero and several species are put together in the order asked for. "
  "Normalizers use the mean of s and the deviations (at least 0.01) over all slots of the chosen frames, subtract and divide column by column (derivatives divide only), and survive being written and read back.",
  ["inputs", "configurations"], "all structures, cutoffs (also of a neighbour table reaching further than the matrix), species choices, widths and collections",
  "The tests of this package need files that are not in the repository and print instead of comparing; the normalizer module could not even be imported.",
  ["matersdk/feature/deepmd/premise.py", "matersdk/feature/deepmd/se_pair.py", "matersdk/feature/deepmd/se.py", "matersdk/feature/deepmd/preprocess.py"],
  [("piecewise s(r) and twelve derivative entries written out", "se_pair.py"), ("masking by species", "premise.py"), ("statistics and normalisation", "preprocess.py")],
  NOTE + "Values are compared in 15-bit fixed point.", ["DpseTildeRPair, DpseTildeR, TildeRPairNormalizer, TildeRNormalizer replies"])

P("P20", "Compiled environment matrices hold each neighbour's row and derivative",
  "For every neighbour table, the compiled environment matrices (EnvMatrix, Se4pw, TildeR, PairTildeR, in both precisions, and the torch operators over batches) have one row per centre and, per neighbour type, one group of slots of the requested width, filled in the order listed with (s, s x/r, s y/r, s z/r) and zero after; "
  "s is 1/r inside the smooth cutoff, falls as u^3(-6u^2+15u-10)+1 times 1/r and is 0 from the cutoff on. The derivatives beside them are exact, by the offset for EnvMatrix and by the centre for the others; TildeR built from a crystal lists exactly the neighbours within the cutoff from near to far, and its automatic widths are the largest counts. The operators read views (slices, transposed tensors) as the tensors they are.",
  ["inputs", "configurations"], "all tables of up to three types, widths at least the number of neighbours of the type, centres in any order, batches; all crystals and choices of centre and neighbour species",
  "The C++ tests print one MoS2 cell; nothing compares a slot with a formula or a derivative with a difference.",
  ["source/descriptor/deepmd/include/envMatrix.h", "source/descriptor/deepmd/include/se4pw.h", "source/descriptor/deepmd/include/se.h", "source/descriptor/deepmd/src/envMatrixOp.cc", "source/descriptor/deepmd/src/se4pw_op.cc", "source/descriptor/deepmd/bind/envMatrixOp_bind.cc"],
  [("slot index from type offset and running count", "envMatrix.h, se4pw.h, se.h"), ("switch function and its derivative", "se.h"), ("batch loop", "envMatrixOp.cc, se4pw_op.cc")],
  NOTE + "Values are compared in 15-bit fixed point.", ["class and operator outputs"])

P("P21", "The MTP basis is every contractible combination of moments up to its level",
  "A moment (mu, nu) has level 2 + 4 mu + nu. For every level the enumeration lists every combination of moments whose levels add up to it and no other, moments from high to low rank; the contraction keeps, in order, exactly the combinations that reduce to a scalar (one moment of rank 0; or the largest rank equal to the sum of the others; or every non-zero rank an even number of times). "
  "The basis of a maximum level is every such combination up to that level, each exactly once, and nmus counts the radial indices in it (maximum level at least 2).",
  ["inputs"], "all levels, all lists of combinations",
  "The C++ tests compare sizes at a few levels, from level 10 on only with a lower bound.",
  ["source/descriptor/mtp/src/mtpLevel.cc", "source/descriptor/mtp/include/mtpLevel.h"],
  [("recursive enumeration from a start pair", "mtpLevel.cc get_all_schemes4lev"), ("two contraction rules", "mtpLevel.cc get_contracted_combs"), ("union over levels", "mtpLevel.cc _build")],
  NOTE, ["MtpMCoeffPairCombs replies"])

P("P22", "MTP templates are read completely or refused",
  "For every .almtp file in the format of the shipped templates (ten header lines of any text, the seven alpha fields in order, either line end, anything after), MtpParam holds exactly the counts, index lists and mapping of the file. "
  "A missing file, a misspelt field name, a list shorter than its count and a file cut short at any byte before the end of the last list raise MtpException. Every shipped template names each moment once and uses a moment only when all products adding to it are done.",
  ["inputs", "fault_sequences"], "all templates, all cut points",
  "The tests name files in the author's home directory and check nothing but that reading them ends.",
  ["source/descriptor/mtpr/src/mtpParam.cc", "source/descriptor/mtpr/include/mtpParam.h", "source/descriptor/mtpr/MTP_templates"],
  [("field by field reading with fail checks", "mtpParam.cc _load")],
  NOTE, ["MtpParam replies and exceptions"])

P("P23", "MTP radial functions, moments and basis functions and their gradients",
  "With w = rc - rs, u = (r - rs)/w and xi = (2r - rc - rs)/w, the radial functions are T_n(xi) (1 + u^3(-6u^2+15u-10)) for rs <= r < rc and 0 elsewhere (in mtpr and in the older RadialBasisChebyshev only asked for in rs..rc), with exact derivatives, whatever an object was built for before; MtpQOp returns them per offset with their gradient (0 with gradient 0 for offset zero, rs > 0), MtpMAngularOp the nu-fold tensor power. "
  "A moment is the sum over neighbours of the coefficients of (mu, type of centre, type of neighbour) dotted with the radial functions, times the tensor power. A basis function, in the order of MtpMCoeffPairCombs, is the contraction of its moments, per batch and centre, with exact gradient; padding neighbours (index 0, offset zero, rs > 0) contribute nothing. Operators and modules read views (slices, transposed tensors) as the tensors they are.",
  ["inputs", "configurations", "histories"], "all distances, cutoffs, sizes, offsets, types, coefficients, levels and batches, in both precisions where the class has them",
  "The C++ tests check tensor shapes only.",
  ["source/descriptor/mtp/include/mtpMRadial.h", "source/descriptor/mtp/include/mtpMRadial_de.h", "source/descriptor/mtpr/include/basis.h", "source/descriptor/mtp/src/mtpMRadialOp.cc", "source/descriptor/mtp/src/mtpMAngularOp.cc", "source/descriptor/mtp/src/mtpMModule.cc", "source/descriptor/mtp/src/mtpBModule.cc"],
  [("recurrences and product rule", "mtpMRadial.h, basis.h"), ("hand-written backward", "mtpMRadialOp.cc"), ("coefficient index", "mtpMModule.cc"), ("sequence of tensordots", "mtpBModule.cc")],
  NOTE + "Single precision is compared within a tolerance.", ["class outputs, operator and module outputs and their gradients"])

P("P24", "Collections of frames: cut, re-ordered, stored and counted",
  "StructCollection.from_trajectory_s holds every frame of a MOVEMENT in order, each with its structure, atomic forces and energies (zero where the file has none), total/potential/kinetic energy and virial; slices, [i] and from_indices (negative and repeated indices included) keep exactly the frames asked for, in that order, and refuse indices out of range. "
  "to(dir, set_size) leaves in dir exactly set.000, set.001, ... of set_size frames each with the rest in the last (cell, atom_coord, tot_energy, atom_force, and virial/atom_energy where any is nonzero), type_map.raw with the element names by first appearance and type.raw with each atom's index in it, whatever dir held before. "
  "save_all_info stores one zero-padded directory per image with that frame's atom.config, arrays and neighbour table; get_max_num_nbrs_real and its per-element form are the maxima over the frames.",
  ["inputs", "histories"], "all trajectories and all histories of cutting and storing, into new and used directories",
  "The tests print; none of them compares a stored value.",
  ["matersdk/data/struct_collection.py", "matersdk/io/pwmat/output/movement.py", "matersdk/io/publicLayer/structure.py"],
  [("parallel arrays cut alike", "__getitem__, from_indices"), ("cutting into sets", "to"), ("per-image files", "save_all_info")],
  NOTE + "The built-in cutoff 6.5 of save_all_info is judged where no distance equals it.", ["collection attributes, the files stored, the counts"])

P("P25", "Trajectory averages: displacements, bond lengths, bond angles",
  "Msd.calc_msd gives, for each pair of consecutive frames, the mean over atoms of the squared change of position as written in the file, calc_msd_sub_centroid the same relative to the frames' centroids, DiffractionIntensity.calc_di exp(-q^2 msd/3); PairBond gives the distance of two atoms' positions in every frame. "
  "AvgBond.get_frames_avg_bond is, per frame, the mean distance from centres of element 1 to the periodic copies of element 2 within the cutoff, in a replica of odd factors. "
  "AvgAngle.get_avg_bond is the mean over all centres of element 1 of the angle between a neighbour of element 2 and a different neighbour of element 3 (each unordered pair once if 2 and 3 are the same element), with 1 - 3/8 sum (1/3 + cos)^2; get_bond_lengths_lst_according2angle has one row (angle in degrees, shorter bond, longer bond) per such pair whose angle is closer than epsilon to the standard; straight angles included. Defined where there is at least one bond or angle.",
  ["inputs", "configurations"], "all trajectories, cutoffs, replicas and choices of elements and atoms",
  "The tests print the averages of one file that is not in the repository.",
  ["matersdk/feature/avg/msd.py", "matersdk/feature/avg/avgbond.py", "matersdk/feature/avg/avgangle.py"],
  [("pairs of frames", "Msd.calc_msd"), ("masks over the neighbour table", "get_avg_bond_length"), ("pairs of neighbours", "get_avg_bond, get_bond_lengths_lst_according2angle")],
  NOTE + "Means of square roots and of angles are compared within a rounding margin; the rows of angles exactly.", ["returned lists and numbers"])

P("P26", "Input files: gen.vext, DOS.input and slurm scripts say what was asked for",
  "A gen.vext written by GenVext.to holds exactly the four assignments VR_CENTER, VR_TYPE, VR_DETAIL and ADD_VR = T/F with the numbers given, without loss of digits (types 1, 2, 3 with 3, 6, 2 details). A DOS.input written by DosInput.to holds, row by row before the #, the atoms mark, the method mark, smearing (five decimals) and number of energies, the three grid numbers, and 0. "
  "A slurm script written by Job.to in the working directory starts with #! and has one line per option (partition, job-name, nodes, ntasks-per-node, threads-per-core, gres=gpu:N, gpus-per-task) with the value given, when all are given. Writing replaces a file that is there and touches no other.",
  ["inputs", "histories"], "all settings and all orders of writing and rewriting files",
  "The tests write one file each and look at none.",
  ["matersdk/io/pwmat/input/gen_vext.py", "matersdk/io/pwmat/input/dos_input.py", "matersdk/hpc/slurm/job.py"],
  [("number formatting", "GenVext.to, DosInput.to"), ("option lines", "Job.to")],
  NOTE + "Files are read as their programs read them: keys and numbers, not text.", ["the files written"])

P("P27", "Perturbed structures are bounded random deformations of the original",
  "PerturbStructure.perturb returns pert_num structures with the atoms of the original in order (right-handed cells). Each cell is the original one times a symmetric matrix 1 + e, |e_ii| <= fraction and |e_ij| <= fraction/2 uniformly distributed and drawn independently, turned so that it is lower triangular with positive diagonal; each atom keeps its fractional position up to its own random displacement, with mean square distance^2 and no preferred direction (none at all for distance 0). "
  "Copies are drawn anew each time; negative settings are refused; the original stays as it was. BatchPerturbStructure.batch_perturb does the same for the atom.config of each directory given and writes structures/0.config, 1.config, ... there.",
  ["inputs", "histories"], "all right-handed structures, settings and sequences of calls",
  "There is one test that prints; randomness is not looked at.",
  ["matersdk/adalearn/generator/perturbation.py"],
  [("deformation matrix", "get_cell_perturb_matrix"), ("turning cell and atoms alike", "rot_lower_triangular"), ("one file per copy", "batch_perturb")],
  NOTE + "Distributions are judged on 1000 copies with numpy's generator seeded, against margins of at least four and a half standard errors.", ["returned structures, the files written"])

P("P28", "Extracted models and what inference hands the model",
  "FFExtractor (given the true numbers of nets and layers) writes a file that holds exactly the embedding and fitting arrays of the checkpoint's state_dict under their names (weights, bias, and resnet_dt where the layer has one, bit for bit), embedding_sizes, fitting_sizes (the layers' widths), M1 (last embedding width) and M2 (inputs of the fitting net / M1), replacing whatever the file held; get_hdf5_dict returns that file. "
  "DpInfer.infer (nbr_atomic_numbers = center_atomic_numbers, any order, all elements of the structure, distinct; odd scaling_matrix that covers the cutoff; max_num_nbrs large enough) calls the saved model once with, for one image, the neighbours' offset vectors, the normalised environment matrix (value - davg)/dstd by centre element, its derivatives/dstd, the 1-based indices of the neighbours and [total, count per element], all rows in order of center_atomic_numbers and slot s of every table about the same neighbour; unused slots are 0 (before normalisation), neighbours near to far per neighbour element. Tables are double precision and differentiable; energy, atom energies, forces and the 3x3 virial come back unchanged; a cuda device that is absent is refused. "
  "FFInfer.calc_tildeR gives one environment matrix per ordered pair of elements.",
  ["inputs", "histories"], "all shapes of nets, crystals, element orders and table widths",
  "The tests need model files that are not in the repository.",
  ["matersdk/infer/pwmatmlff/deepmd/extractor.py", "matersdk/infer/pwmatmlff/deepmd/inference.py", "matersdk/infer/pwmatmlff/deepmd/preprocess.py", "matersdk/infer/pwmatmlff/deepmd/inference_depre.py"],
  [("names of layers", "FFExtractor.extract"), ("tables built apart, aligned by order", "preprocess.py"), ("squeeze of the image axis", "DpInfer.infer")],
  NOTE + "The model is a stand-in that records its arguments and gives known answers.", ["the files written, the arguments of the model, the values returned"])

P("P29", "Vectors, aligned arrays and tables of the C++ core",
  "Vec3: [] read and write, unary +/-, + - (and +=, -=), product with a number from both sides (and *=), division by a number (and /=), dot, cross, == and != are component arithmetic of 3-vectors (exact where the numbers are), the operands of non-assigning operators unchanged, the assigning ones returning the vector itself; << prints the three components. "
  "vec3Operation: dot, cross, norm, normalize agree with them; RecursionOuterProduct(n, v), n >= 1, has 3^(n-1) rows of 3 whose entry at flat index m is the product of the components named by the n base-3 digits of m. "
  "AlignedArray: size() is the size asked for, elements are read as last written, storage starts on a 16-byte boundary, copies and arrays in a growing vector are independent of the original. "
  "arrayUtils: allocate3d/4d/5dArray give a table whose elements are all distinct storage (zero where init is asked for), free3d/4d/5dArray give back all the memory.",
  ["inputs", "histories"], "all sessions of operations on registers, arrays and tables",
  "The tests print most of these values and copy no array.",
  ["source/core/include/vec3Operation.h", "source/core/include/vecx.h", "source/core/include/AlignedArray.h", "source/core/include/arrayUtils.h"],
  [("recursion over the order", "RecursionOuterProduct"), ("ownership of the buffer", "AlignedArray"), ("nested allocation and release", "arrayUtils.h")],
  NOTE + "Runs under AddressSanitizer and UBSan; numbers are integers small enough to be exact.", ["registers, elements, addresses, bytes held"])
