p("C01", "Resampling replaces member weights by their mean",
  """Resampling a cell gives every member event, for the central and for every auxiliary weight alike, the arithmetic mean of
  that weight over the cell's members. The sum of each weight over the cell is therefore unchanged. No event outside the cell is touched.""",
  ["inputs", "configurations"], "every cell (any members, any number of weights), with and without the multiweight feature",
  "No test builds a cell; the sum over all weights and members is quantified over arbitrary sizes, and the single-weight build is a different function.",
  ["src/cell.rs", "src/event.rs"], [("Cell::resample", "src/cell.rs"), ("Weights::add_assign, copy_from, iter_mut", "src/event.rs")],
  ["event weights after Cell::resample"], "abstract interpretation (value numbering with sum closed forms)")
p("C02", "A cell grows from its seed until its weight sum is non-negative",
  """A cell consists of its seed followed by the neighbours offered for that seed, in the offered order and without omission, up to and
  including the first one that makes the accumulated central weight non-negative, or all of them if that never happens.
  The reported number of members, weight sum, number of negative members and member iteration describe exactly these events before resampling,
  and the radius is the distance of the last one taken (zero for the seed alone).""",
  ["inputs", "configurations"], "every event sample, seed and neighbour sequence; both weight layouts",
  "No test constructs a cell; the stopping rule quantifies over all weight sequences.",
  ["src/cell.rs"], [("Cell::new", "src/cell.rs"), ("Cell accessors", "src/cell.rs")], ["members, radius, weight_sum of a new cell"],
  "loop-record analysis (loop-carried values, exit snapshots)")
p("C03", "Cells are built around negative events only, in the chosen order",
  """Seed selection hands out exactly the events with negative central weight, most negative first, least negative first or in event order
  according to the chosen strategy. During resampling one cell is built, resampled and reported to the observer for each seed whose central weight is still negative
  at that moment, and none for seeds that have become non-negative. After the last seed the observer is told once that resampling has finished.""",
  ["inputs", "schedules", "configurations"], "every event sample and strategy",
  "Selection order and skipping depend on all weights; no test runs the resampler on overlapping cells.",
  ["src/seeds.rs", "src/resampler.rs"], [("StrategicSelector::select_seeds", "src/seeds.rs"), ("Resampler::resample", "src/resampler.rs")],
  ["sequence of seeds; cells passed to the observer"], "abstract interpretation (filter and ordering predicates, guard equivalence)")
p("C04", "The naive neighbour search offers all others once, nearest first",
  """For any number of points and any distance function, the naive neighbour search offers for a given point exactly the other points whose
  distance to it does not exceed the maximum distance, each exactly once and never the point itself, in order of non-decreasing distance, and
  together with that distance.""",
  ["inputs"], "every number of points, query point, distance function and limit",
  "The shipped tests do not exercise the naive search at all; ties, limits and removal order quantify over all point sets.",
  ["src/neighbour_search.rs"], [("NaiveSearchData::nearest, NaiveNeighbourIter::next", "src/neighbour_search.rs")],
  ["sequence of (index, distance) from the neighbour iterator"], "abstract interpretation (minimum selection, guard equivalence, state update)")
p("C05", "The tree search gives the same neighbours as the exhaustive search",
  """For any points and any metric, the vantage-point tree search offers for a given point exactly the other points within the maximum distance,
  each once, never the point itself, in order of non-decreasing distance and together with that distance: however the tree was built
  (sequentially or in parallel), no point is lost from the tree, and no region is skipped that could still hold an admissible or nearer point.""",
  ["inputs", "schedules"], "every point set (below and above the parallel threshold), query point, metric and limit",
  "Two tests query small hand-made point sets; losing a subtree or pruning too much depends on the geometry and on the number of points (the parallel builder needs at least 1000).",
  ["src/vptree.rs", "src/neighbour_search.rs"],
  [("VPTree::build_tree, par_build_tree", "src/vptree.rs"), ("VPTree::nearest_in_subtree, NearestNeighbourIter::next", "src/vptree.rs")],
  ["sequence of (point, distance) from the tree search"], "path-sensitive analysis: pruning obligations discharged by linear entailment from path conditions")
p("C06", "Cells sharing events can be resampled at the same time",
  """Resampling a cell takes exclusive access to the weights of all its members before reading the first and keeps it until after writing the last,
  and always acquires them in one global (event) order, so that overlapping cells resampled concurrently neither deadlock nor mix their weights.
  While any event weight or shared event list is locked, no further lock is taken and no code supplied by the user (clustering, observer, distance, search) is run.""",
  ["schedules", "configurations"], "every pair of overlapping cells and every interleaving; all threads of the conversion stage",
  "Deadlocks and lost updates need a particular interleaving of overlapping cells; no test runs two cells at once.",
  ["src/cell.rs", "src/event.rs", "src/cres.rs"], [("Cell::resample, write_lock_weights", "src/cell.rs"), ("Cres::read_events", "src/cres.rs"), ("Event::weight, rescale_weights, n_weights", "src/event.rs")],
  ["termination and weights of concurrent Cell::resample calls"], "lock-order analysis and guard typestate over MIR")
p("C07", "Every record read becomes exactly one event with its own number",
  """For every record the event source yields, the event sample holds exactly one event: the record converted and then clustered, carrying the position of that record in the
  input as its id, whatever order the concurrent conversions finish in. If any record cannot be read, converted or clustered, or an event already carries an id,
  the run fails with that error instead of continuing with an incomplete sample.""",
  ["inputs", "schedules"], "every sequence of records, every pattern of failures, every completion order of the conversion tasks",
  "Which conversion finishes first depends on the thread schedule and a failure may hit any record; no test runs the reader.",
  ["src/cres.rs"], [("Cres::read_events", "src/cres.rs"), ("CresBuilder::build", "src/cres.rs")],
  ["ids and number of events given to the resampler", "error returned by Cres::run"], "value analysis of spawned tasks, outcome analysis over loop exits")
p("C08", "Each record is written with the weights of its own event",
  """A run reads all events, resamples those with outgoing particles, unweights what resampling returned and then writes one set of weights per input record, in this order and only
  while no step has failed. The weights written for a record are those its event has after unweighting; zero (for every weight) if unweighting discarded
  the event; and unchanged if the event was ignored because it has no outgoing particles. The error of any step is returned and success is only reported after the weights were written.""",
  ["inputs", "configurations"], "every sample, any set of ignored or discarded events, both weight layouts",
  "The association by id matters only when events are ignored, discarded or reordered, for samples of any size; no test runs the full pipeline.",
  ["src/cres.rs"], [("Cres::run", "src/cres.rs")], ["weights handed to the event output for each record", "result of Cres::run"],
  "value analysis of the scatter loops that fill the weight list; guard equivalence")
p("C09", "Unweighting is unbiased and preserves the total weight",
  """With an unweighting threshold m > 0, every event whose absolute central weight |w| exceeds m is kept; every other event is kept with probability |w|/m, independently, using
  a fresh random number, and all weights of a kept event below the threshold are multiplied by m/|w| (so its sign is preserved). Afterwards all weights of all kept events are multiplied by
  one common factor that restores the sum of central weights before unweighting. Nothing else about the events or their order changes; m = 0 and disabled unweighting change nothing.""",
  ["inputs", "configurations"], "every sample, threshold and random sequence; both weight layouts",
  "No test unweights anything; unbiasedness is a statement over all random sequences.",
  ["src/unweight.rs", "src/event.rs"], [("Unweighter::unweight, NoUnweighter::unweight", "src/unweight.rs"), ("Event::rescale_weights", "src/event.rs")],
  ["events and weights returned by Unweight::unweight"], "value analysis (decision predicate, factor normal forms) with trace ordering of reads and stores")
p("C10", "The default distance is the smallest total distance over all pairings",
  """The default distance of two events is a sum over particle types: for a type in both events, the minimum over all ways to pair up their momenta (the smaller set filled up with
  zero momenta) of the summed pair distances, and for a type in only one event, the summed norms of its momenta; every type present in either event enters exactly once. The distance of two momenta is
  sqrt(|p - q|^2 + (w (pt_p - pt_q))^2) over the three spatial components and the transverse momenta, with w the weight the distance was constructed with; adaptors that wrap a distance pass both events on unchanged.""",
  ["inputs", "configurations"], "every pair of events (any types, any multiplicities) and every pt weight",
  "Tests compare a few hand-made events; a wrong pairing shows only for particular multiplicities and momenta, a lost type only for particular combinations of types.",
  ["src/distance.rs"], [("EuclWithScaledPt::distance, min_paired_distance, pt_dist", "src/distance.rs"), ("SquareMatrix, DistWrapper", "src/distance.rs")],
  ["number returned by Distance::distance"], "value analysis: case-by-case proof of the merge loop, normal form of the pair distance, structure of the minimisations")
p("C11", "Events keep every particle, grouped by type, and momenta stay consistent",
  """An event built from particles holds every particle added exactly once, grouped by type, each type at most once and in one fixed order of the types whatever the order of adding; looking up
  a type returns exactly its momenta, none if absent. The weights are those added, in order, and rescaling energies multiplies all four components of all momenta by the factor.
  A four-momentum's transverse momentum always is that of its own components, also after sums, differences and conversions, which all keep the component order.""",
  ["inputs", "configurations"], "every list of particles and weights; both weight layouts",
  "Grouping and lookup depend on which types are adjacent in the sorted list; tests use a handful of events.",
  ["src/event.rs", "src/four_vector.rs"], [("EventBuilder::build, add_outgoing, add_weight, rescale_energies", "src/event.rs"), ("Event::outgoing_with_pid", "src/event.rs"), ("FourVector", "src/four_vector.rs")],
  ["Event::outgoing, outgoing_with_pid, weight", "FourVector accessors"], "value analysis of the grouping loop and lookup; symbolic normal forms for momenta")
p("C12", "Clustering sends each particle to exactly one place",
  """The default clustering turns every final-state particle into exactly one thing: quarks, gluons and hadrons (and their antiparticles) are input of the jet algorithm;
  photons passing the isolation criterion are kept as isolated photons; with a lepton definition, remaining photons, electrons and muons of either charge are input of the lepton
  clustering; everything else is kept unchanged under its own type, except that neutrinos are dropped unless requested. The clustered event consists of these, all jets and all dressed leptons, formed with
  the configured algorithm, radius and minimum transverse momentum, and has the id and weights of the original. A photon is isolated if it reaches the minimum transverse momentum and exceeds the
  given fraction of the transverse energy of the other particles (no muons, no neutrinos) within the radius. Without clustering, events are unchanged.""",
  ["inputs", "configurations"], "every event, every particle type, every combination of lepton, photon and neutrino options",
  "The decision depends on type, charge, neighbours and three options; the tests cover a few events with one option set each.",
  ["src/cluster.rs"], [("DefaultClustering::cluster, is_isolated, with_lepton_def, with_photon_def, include_neutrinos", "src/cluster.rs"), ("cluster, is_parton, is_hadron, is_light_lepton", "src/cluster.rs")],
  ["output of Clustering::cluster"], "value analysis; provenance of list elements through loops, decision table over particle types")
p("C13", "Settings of a cres run reach the component they configure",
  """A run of the cres program uses exactly its settings: the chosen neighbour search, seed strategy, transverse-momentum weight in the distance and maximum cell size (unlimited if not given) for
  the resampling of all events; jet definition and neutrino flag, and lepton and photon definitions exactly if given, for clustering; minimum weight and seed for unweighting;
  the named weights for reading and for updating; the output compression; the number of threads. Every input file is paired, in order, with the file of the same name in the output directory.
  Partial lepton or photon settings are rejected, and the program only reports success if the run succeeded. The builders for the default resampler pass every setting on and default to no limit, zero weight and the most negative seeds first.""",
  ["configurations"], "every combination of settings",
  "Tests run one combination and do not look at which setting reached which component.",
  ["src/bin/main.rs", "src/bin/opt_common.rs", "src/bin/opt_cres_validate.rs", "src/resampler.rs"],
  [("main, cres, cres_with_search", "src/bin/main.rs"), ("validate", "src/bin/opt_cres_validate.rs"), ("DefaultResampler, DefaultResamplerBuilder, Resampler::resample", "src/resampler.rs")],
  ["components passed to the run; exit status"], "whole-program value analysis from main with a symbolic command line")
p("C14", "Command line flags set their own setting and accept the documented values",
  """Each flag of cres, cres-partition and cres-classify-events sets the setting of its name and no other. Defaults are: no unweighting (minimum weight 0, seed 0), distance weight 0, most negative seeds first,
  tree search, no maximum cell size, no compression, default number of threads, log level info; jet algorithm, radius and minimum transverse momentum, output and (cres-partition) number of regions are required.
  Exactly the documented names are accepted: seed strategies any, most_negative, least_negative; jet algorithms anti-kt, kt, Cambridge-Aachen and their spellings; numbers of regions that are powers of two; compression bzip2, gzip (level 0-9, default 6),
  lz4 (0-16), zstd (0-19) in any letter case, each mapped to the thing it names with the given level. All other texts are rejected.""",
  ["inputs", "configurations"], "every flag and every text given for a named value",
  "No test parses a command line; the sets of accepted and rejected texts are infinite.",
  ["src/bin/opt_cres.rs", "src/bin/opt_common.rs", "src/bin/opt_partition.rs", "src/bin/opt_classify.rs", "src/cluster.rs"],
  [("Opt structures", "src/bin/opt_cres.rs"), ("parse_compr", "src/bin/opt_common.rs"), ("parse_strategy", "src/bin/opt_cres.rs"), ("parse_nregions", "src/bin/opt_partition.rs"), ("JetAlgorithm::from_str", "src/cluster.rs")],
  ["parsed settings, rejection of arguments"], "symbolic evaluation of the generated argument code; decision tables of the text parsers")
p("C15", "A HepMC2 record is read as the event it describes",
  """Reading a HepMC2 event record gives an event whose outgoing particles are exactly those of its particle lines with status 1, each with the particle id and the (energy, px, py, pz) of its own
  line, in GeV whatever energy unit the record announces (GeV if none). The central weight is the first weight of the event line, behind as many entries as the line announces random states.
  With multiple weights, further weights are those whose names were requested, each the value in the position its name has on the name line; a requested name that is not there is an error.
  Every line up to the end of the record is looked at; a missing or malformed entry that is needed, an unknown energy unit or an unknown kind of line is reported as an error, never skipped.""",
  ["inputs", "configurations"], "every text of a record (any number of lines, weights, random states, names) and every list of requested weights; both weight layouts",
  "Tests read a handful of well-formed records from one generator; other numbers of random states, MeV records, permuted weight names and malformed lines do not occur in them.",
  ["src/hepmc2.rs", "src/parsing.rs"], [("HepMCParser::parse_hepmc", "src/hepmc2.rs"), ("parse_particle_line, parse_units_line, extract_weights, parse_weight_names_line", "src/hepmc2.rs")],
  ["event or error returned by the conversion of a HepMC record"], "abstract interpretation of parser combinators over symbolic text (entry positions), case split on the state transformer of the line loop")

p("C16", "Writing an event record changes its weights and nothing else",
  """When weights are written back to a HepMC or Les Houches event file, the output consists of what is in front of the first record followed by the records in order, each of them as it was read
  except for its weight entries: the central weight is replaced by the new one and, with named weights in HepMC, each requested weight at the position of its name, in the order of the names on the
  name line; all others stay as they are. New values are written with all their digits, everything else byte for byte (weights on one line may be separated differently). Without weights a record
  is copied unchanged. A record without a place for the weight, and errors reading or writing, are reported and such a record is not written; success means that everything has been written. The
  update of a whole file starts with the first record, takes one set of weights per record in order, says how many records were updated, and completes the file.""",
  ["inputs", "configurations"], "every text of a record, every list of weights and names, every sequence of records; failures of every read and write; both weight layouts",
  "Tests compare a few weights of one small file and never look at the rest of the text, at other layouts of the event line, or at failing reads and writes.",
  ["src/hepmc2.rs", "src/lhef.rs", "src/parsing.rs"], [("hepmc2::FileIO::update_next_weights, update_central_weight, update_named_weights", "src/hepmc2.rs"), ("lhef::FileIO::update_next_weights", "src/lhef.rs"), ("update_all_weights, try_new", "src/hepmc2.rs")],
  ["text of the output file", "result of update_next_weights and update_all_weights"], "abstract interpretation over symbolic text: output decomposed into slices of the input record; path conditions of errors; induction over the loop over records")

p("C17", "A Les Houches record is read as the event it describes",
  """Reading a Les Houches event record gives an event whose weight is the third entry of the event line, and whose outgoing particles are exactly those with status 1 among the particle lines behind
  it (as many as the first entry of the event line announces, in order, none skipped and none read twice), each with the particle id and the (energy, px, py, pz) of its own line. A record without
  an event line, and a missing or malformed entry that is needed, are reported as an error.""",
  ["inputs"], "every text of a record, any number of particles; both weight layouts",
  "Tests read one small file; other layouts of the event line, other particle types, states and malformed entries do not occur in it.",
  ["src/lhef.rs", "src/parsing.rs"], [("LHEFParser::parse_lhef", "src/lhef.rs")],
  ["event or error returned by the conversion of a Les Houches record"], "abstract interpretation of parser combinators over symbolic text (entry positions), induction over the loop over particle lines")

p("C18", "STRIPPER XML events are read, rescaled and reweighted as the files state",
  """Reading a STRIPPER XML subevent gives an event whose weight is the one stated in the `w` attribute of its `<se>` element, multiplied by the scale of the file's channel, and whose outgoing particles are exactly
those with status 0, in order, each with the particle id and the energy and momentum of its own element. The scale of a channel is the cross section in its normalization file divided by the total number of
events over all of its event files, whatever the order in which the files are given; a channel without normalization is reported as an error, and normalization files are not treated as event files. Updating the weights puts the new weight,
divided by the same scale, in the place of the old number and leaves every other byte as it was.""",
  ["inputs", "orders"], "every text of a subevent, any number of particles; all files and orders of up to three files per channel, by induction over the files",
  "Tests do not contain STRIPPER XML samples with several channels, several files or missing normalizations.",
  ["src/stripper_xml.rs", "src/four_vector.rs"], [("extract_scaling", "src/stripper_xml.rs"), ("parse_stripper_xml", "src/stripper_xml.rs"), ("update_next_weights", "src/stripper_xml.rs")],
  ["event, error, list of event files and scales, or bytes written back"], "abstract interpretation of parser combinators over symbolic text (positions behind literals, blanks and numbers), loop summaries over particles and files")

p("C19", "Event files are split into records without loss, and can be read again",
  """Reading a HepMC, Les Houches or STRIPPER XML file hands out its event records one after another: the header ends where the first record starts, every record extends up to the place where the next one starts
  (or to the closing tag of its event), no bytes between header and last record are lost, repeated or moved to another record, and a file without events has no records and its whole content as header.
  Read errors are reported and never taken for the end of the file. Rewinding opens the same file again and restores the state that the reader had after its construction; counters never wrap around.""",
  ["inputs", "histories"], "every file content and every way in which the stream can end or fail, any number of records; every state before rewinding",
  "The only sample file is HepMC with one way of ending; read errors, files without events and repeated rewinding do not occur in the tests.",
  ["src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs"], [("FileReader::read_raw", "src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs"), ("init_source", "src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs"), ("Rewind for FileReader, FileIO", "src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs")],
  ["records, header and errors handed out by a reader"], "transition-system analysis of the collecting loops (case analysis over read results), field-wise comparison of rewinding with construction")

p("C20", "Several event files are read and rewritten as one, each by its own format",
  """A list of input files behaves like a single file that contains their events in the given order: reading hands out all events of every file, one file after the other, passes over files without events,
  reports a file that cannot be opened, and starts from the first file again after rewinding. Updating all weights opens every file of the list once, in order, continues with the weights where the previous file stopped, closes every file
  exactly once and reports any error on the way; updating one event at a time does the same. The format of each file is recognised from the start of its decompressed content (ROOT files are refused, XML, Les Houches, anything else is HepMC),
  and the file is then read and written by that format with the requested compression, weight names and normalizations; each record is parsed as the format it came from.""",
  ["inputs", "histories"], "any number of files in any order of formats and numbers of events, any interleaving of reading, rewinding and updating; every start of a file",
  "The tests read a single HepMC file; several files, files without events in between and errors in later files never occur.",
  ["src/io.rs", "src/util.rs"], [("CombinedFileIO", "src/io.rs"), ("IOBuilder::build_from_files, build_from_files_iter", "src/io.rs"), ("detect_event_file_format", "src/io.rs"), ("FileIO, FileReader", "src/io.rs"), ("Converter::try_convert", "src/io.rs")],
  ["events and errors handed out, output files opened and closed"], "lock-step comparison of the methods with a specified transition system, case analysis of format detection and dispatch")

p("C21", "No failure is dropped on the way to the caller",
  """When something fails while events are opened, read, parsed, converted, clustered, resampled, unweighted, classified or written, in the library or in one of the three programs, the failure is reported to the caller:
  no function returns success, skips an event, a file or a footer, or stops early after a failed operation whose error it has merely looked at, logged, replaced by a default value or thrown away.
  An error may be replaced by another error. A program whose run failed does not end successfully. Looking ahead to guess the format of a file and the mismatches of a parser that has another way to go on are no failures; a destructor cannot report anything.""",
  ["inputs", "faults"], "every fallible call in every function and closure, every path through the functions",
  "Tests only run without failures: there are no damaged files, no full disks and no unreadable events among the samples.",
  ["src"], [("Result-valued calls", "src/**/*.rs"), ("main", "src/bin/*.rs")],
  ["returned errors, exit status"], "forward dataflow over MIR: every value that may carry an error must be moved to the caller, kept or replaced by an error on every path; item types of iterator adaptors from the type checker")

p("C22", "cres-partition builds, stores and restores a partition into regions",
  """`cres-partition` reads every event of every input file, clusters those with negative weight with the settings given, and builds from all of them a tree with the requested number of regions; with too few events
  for that number, and with lepton or photon settings that are given only in part, it ends with an error instead of a panic or a partition with other settings. The tree is stored in breadth-first order together with the clustering
  settings and the weight of the distance function, everything that is stored is read back with the same meaning, and the output is compressed as requested. The region of an event is found
  by going from the root to a leaf: to the inside if its distance to the vantage point is within the radius, to the outside if it is larger; the regions are numbered by the leaves, from zero to the number of regions minus one.""",
  ["inputs", "configurations"], "all input files, events, options; any number of events and of regions (the condition on the numbers: all numbers of events up to four times the regions plus 8, and regions 1, 2, 4, ..., 256); every partition that can be stored",
  "There are no tests of cres-partition or of the lookup; too few events, partial settings, points on a boundary and stored partitions never occur.",
  ["src/bin/partition.rs", "src/partition.rs", "src/vptree.rs", "src/cluster.rs", "src/event.rs"], [("main", "src/bin/partition.rs"), ("VPTreePartition::region", "src/partition.rs"), ("From<VPTree> for VPTreePartition", "src/vptree.rs"), ("Serialize, Deserialize", "src/cluster.rs, src/event.rs, src/partition.rs, src/distance.rs")],
  ["partition file, region of an event, errors"], "value analysis of the program and of the derived (de)serialisers; loop bodies compared with state transformers; exhaustive evaluation of the extracted condition on the numbers of events")

p("C23", "cres-classify-events puts every event into the file of its region",
  """`cres-classify-events` reads a partition file as `cres-partition` writes it, compressed or not, and goes through all input files, each in its own format. For each input file it creates in the output directory exactly one file for each region,
  named after the input file with the number of the region in it, compressed as requested. Each of these starts with the header of the input file and ends with the footer of the format; in between,
  every event of the input file is written, as it was read, in order, to the file of the region that the clustered event belongs to, and to no other. Reading stops with an error or at the end of the file.""",
  ["inputs", "configurations"], "any partition, any number and format of input files, any events; every option",
  "There are no tests of cres-classify-events; they could only look at a few events in a few files.",
  ["src/bin/classify-events.rs", "src/partition.rs"], [("Classifier::classify_byte_records, make_byte_writers, trim_footer, write_footer", "src/bin/classify-events.rs"), ("main", "src/bin/classify-events.rs"), ("VPTreePartition::region", "src/partition.rs")],
  ["names and contents of the output files, errors"], "value analysis over symbolic text with writers as values (every write attributed to the file it goes to), induction over regions, events and files")

p("C24", "A successful run leaves complete output files",
  """Whenever an update of the weights of an event file is finished successfully (all events at once, or one at a time and then finished), `cres-partition` ends successfully, or `cres-classify-events` has dealt successfully with an input file,
  everything that was written has been passed on to the file that was created for it: each output is flushed after the last write, and success depends on that. Output is compressed in the format and with the level that was asked for,
  and left alone if none was; an encoder gets everything that is written, a failure to start it is reported, and when it is closed it completes the compressed data with the end mark of the format
  (errors in writing this end mark alone cannot be reported).""",
  ["faults", "configurations"], "every format, every compression and level, any events, a failure of any write",
  "Tests write a few kB to a disk with enough space, uncompressed, and never look at what happens when the buffers are emptied.",
  ["src/compression.rs", "src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs", "src/bin/partition.rs", "src/bin/classify-events.rs"], [("compress_writer", "src/compression.rs"), ("FileIO::try_new, update_all_weights, finish_weight_update", "src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs"), ("main", "src/bin/partition.rs"), ("Classifier::classify_byte_records", "src/bin/classify-events.rs")],
  ["bytes in the output files, errors"], "value analysis: state of the writer at each flush, success outcomes that do not need its success; encoder terms and destructor of the value returned for each compression")

p("C25", "The C interface runs the same resampling and reports what happened",
  """`cres_run` resamples the given input files in the order given, each into the file of the same name in the output directory (which it creates), with the jet definition, the maximum cell size and the neighbour search of the options, and
  without unweighting; the distance is the default one with the given pt weight if no distance is given, and otherwise the user-defined function. It returns 0 if and only if the run succeeded; otherwise the error is kept as the last error. No panic leaves
  an exported function: it is reported as an error. `cres_logger_from_env` takes the name of the variable from its argument and returns 0 unless it panicked. `cres_get_last_err` writes nothing if there is no error or no room at all, and otherwise
  the message, cut to the size of the buffer, and a terminating zero, never more than fits; it returns 0 if there was no error or the message was complete, and the size needed for the message and the terminator if it was not.
  `cres_print_last_err` prints the last error, if any. A user-defined function is called with the C calling convention, with its own data and with views of the two events that have the id, all weights and all particles (type and four-momentum E, px, py, pz) of
  the event, in memory that stays valid during the call; its value is the distance. An event made from a view has the id, weights and particles of the view. All types that are exchanged have a layout defined in C.""",
  ["inputs", "faults", "configurations"], "any options, failures and panics at any point, any buffer size, any events",
  "There are no tests of the C interface at all.",
  ["src/c_api/cres.rs", "src/c_api/error.rs", "src/c_api/distance.rs", "src/c_api/event.rs", "src/c_api/log.rs"], [("cres_run", "src/c_api/cres.rs"), ("cres_get_last_err, cres_print_last_err", "src/c_api/error.rs"), ("cres_logger_from_env", "src/c_api/log.rs"), ("Distance for DistanceFn", "src/c_api/distance.rs"), ("From<EventView> for Event", "src/c_api/event.rs")],
  ["return values, the last error, bytes in the caller's buffer, structures seen by a user-defined distance"], "value analysis from the exported functions to the main algorithm under every outcome (including caught panics); case distinction over the buffer size; layouts and calling conventions of types; drops of sequences behind raw pointers")

p("C26", "Input files and earlier outputs are never overwritten",
  """Resampling several event files (with the program `cres`, the C interface, or an object built from pairs of input and output files), building a single event file I/O object, `cres-partition` and `cres-classify-events` change nothing in the
  file system except that they create the output files and, if needed, the output directory: input files are only opened for reading, and nothing is removed, renamed or written elsewhere. Before an output file is created it is made sure that it is
  none of the input files (for `cres-classify-events`: nor the partition file) and none of the outputs of other input files of the same run, whatever the spelling of the paths (relative paths, `..`, symbolic links; hard links are not looked through).
  If it is one of them, an error is reported before any of the files concerned is touched. Outputs that are not regular files (devices, pipes) are not restricted, and results of an earlier run are replaced.""",
  ["inputs", "configurations"], "any number of input files with any names and any output directory or file",
  "Tests write to a fresh temporary directory with one input file.",
  ["src/io.rs", "src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs", "src/bin/main.rs", "src/bin/partition.rs", "src/bin/classify-events.rs", "src/c_api/cres.rs"], [("CombinedFileIO::new, open, IOBuilder::build_from_files", "src/io.rs"), ("FileIO::try_new", "src/hepmc2.rs"), ("main", "src/bin/partition.rs"), ("make_byte_writers", "src/bin/classify-events.rs")],
  ["contents of the input files and of all other files after a run"], "effect analysis: list of all calls that change the file system; value analysis: condition under which each output file is created, membership facts of the set of protected paths carried through loops")

p("C27", "What a run reports about cells and weights is true",
  """What resampling writes to the log (from the level of information on) describes exactly the events and cells of this run. Initial and final sum of weights are the sums of the (central) weights over all events handed to the resampling and over all
  events after unweighting, with the square root of the sum of squared weights as uncertainty, and the negative-weight fractions are the ratio of the absolute sum of negative weights to the sum of absolute weights over the same events. The numbers of
  events read and of events ignored, and the numbers of events in each category of particle content (types and numbers of particles; every event that takes part counts once) are the true ones. Every cell that was resampled is observed into the data of
  the thread that made it, and the reported number of cells, number of cells of negative weight and median radius are those over the cells of all threads. A cell collector set for the resampling is offered every cell once, the collectors of all threads
  are combined, and the collector that was set receives the result.""",
  ["inputs", "schedules"], "any events, weights, cells and distributions of cells over threads; sums as real numbers",
  "No test looks at what is logged; numbers over threads depend on the schedule.",
  ["src/resampler.rs", "src/cres.rs"], [("Resampler::print_wt_sum", "src/resampler.rs"), ("Observer::observe_cell, finish, ObserverData::combine, median_radius", "src/resampler.rs"), ("DefaultResampler::resample", "src/resampler.rs"), ("Cres::run, log_multiplicities", "src/cres.rs")],
  ["log messages", "contents of the cell collector after a run"], "value analysis with logging executed: every reported value compared with its definition, sums as normalised reductions; the fold over the data of the threads analysed by its step")

p("C28", "The cell collector keeps the cells it is meant to keep",
  """A cell collector counts every cell offered to it and gives it its number. As long as there are no more cells than its limit, it keeps all of them; after that, in each of the lists by radius, by number of members and by weight, a cell that is larger
  than the smallest one kept takes its place, a smaller one changes nothing, and the random selection is a fair sample of all cells so far (the n-th cell replaces a uniformly chosen entry with probability limit/n). Each cell is kept with its number and the
  identifiers of all of its events. Combining the collectors of two threads adds up the counts, shifts the numbers of the second so that they stay unique, and keeps the largest cells of both in each list, the first cells up to the limit, and no more than the
  limit of the two random selections. The log shows all kept cells with their true number, number of events and size, the largest first, and `event_cells` names for every event of a kept cell the numbers of the cells that contain it.""",
  ["inputs", "histories"], "any sequence of cells, any way of splitting it over threads, any limit",
  "No test uses a cell collector; what is kept depends on the whole history.",
  ["src/cell_collector.rs"], [("CellCollector::collect, combine, event_cells, dump_info", "src/cell_collector.rs")],
  ["CellCollector::event_cells", "log messages"], "value analysis of one step (offering a cell, combining two collectors) over ordered maps as sequences; induction over the steps")
