NOT_APPLICABLE = {}
PROPS = []


def P(id, **kw):
    PROPS.append(dict(id=id, **kw))


P("P09",
  title="Channel coding chains recover the data they encode",
  statement="For every chain of repetition, block-interleaving, CRC and scrambling steps, with any of them disabled, every sequence of frames encoded by a coding pipeline is recovered bit by bit when the pipeline decodes it, also if padding was required or a longer code length was requested. The block sizes, rate and number of fitting data bits reported by the pipeline agree with the code actually produced, and padding or truncation happens only if permitted. Repetition coding corrects every error pattern flipping less than half of the copies of each bit, and scrambling follows the IEEE 802.11a sequence of the configured seed.",
  over=["configurations", "inputs", "histories"],
  quant="all chains of up to three steps over a catalogue of steps, all enable masks, all payloads of short blocks, all correctable error patterns, all interleavings of encode and decode calls up to a depth",
  why="The tests encode single frames with one or two fixed encoders; sizes that do not align, several frames through a stateful chain and error patterns are a product space.",
  files=["hermespy/fec/coding.py", "hermespy/fec/scrambler.py", "hermespy/fec/repetition_encoder.py", "hermespy/fec/block_interleaver.py", "hermespy/fec/cyclic_redundancy_check.py"],
  mech=[("EncoderManager.encode/decode", "hermespy/fec/coding.py"), ("Encoder implementations", "hermespy/fec")],
  technique="bounded exhaustive enumeration of coding chains, frame histories and error patterns on the real code against a reference model",
  note="Exhaustive within the stated bounds on the real implementation; AFF3CT based codes are not compiled in this sandbox and not covered.",
  design="Real `EncoderManager` chains of length 0..3 over 15 configured steps, all enable masks of selected chains, six frame lengths per chain, each frame decoded after all were encoded; the reference predicts lengths, capacity, rate and the code of deterministic steps; the 802.11a LFSR is re-implemented. All 2^n error patterns within the correction capability of repetition codes. ~5 s.")

P("P07",
  title="Dense and sparse signals behave like a plain sample matrix",
  statement="Whatever the number of streams and the pattern of occupied samples, a dense and a sparse signal created from the same samples report the same samples, sizes, energy, power and metadata, and conversion, interleaving, copying, pickling, slicing, assignment, scaling and appending give what the same operation gives on a plain matrix of samples. Superposition adds a signal at the position its relative delay demands, at the addressed streams only, extends the result if required and leaves the added signal untouched.",
  over=["inputs", "histories", "configurations"],
  quant="all occupancy patterns of up to 6 samples x 1-3 streams x 5 ways of building a signal, all slices of short windows, all pairs of patterns x relative delays x stream subsets, all histories of operations up to a depth",
  why="Sparse signals have a distinct code path per alignment of blocks, slices and delays; the tests sample a few alignments only.",
  files=["hermespy/core/signal_model.py"],
  mech=[("Signal.Create", "hermespy/core/signal_model.py"), ("DenseSignal", "hermespy/core/signal_model.py"), ("SparseSignal", "hermespy/core/signal_model.py")],
  technique="bounded exhaustive enumeration of occupancy patterns, slices, delays and operation histories on the real signal classes against a matrix reference",
  note="Exhaustive within the bounds on the real implementation. Resampling of signals of different rates is not covered.",
  design="Signals of <=6 samples, <=3 streams, all occupancy patterns, five construction paths (dense, Create, SparseSignal from array, from blocks, split blocks); all slices with starts, stops and steps; all assignments; superposition of all pairs of 4-sample patterns x delay shifts -5..6 x stream subsets; all histories of depth 3 (thorough 4) over seven operations. Reference: numpy matrix. ~13 s.")

P("P35",
  title="Configured objects survive serialization with all of their settings",
  statement="Every serializable object of the catalogue - coding steps and pipelines, precodings, symbols and constellations, communication waveforms, modem operators, radars and radar waveforms, beamformers, antennas and arrays, channel models with their realizations and samples, radio-frequency blocks and noise models, isolation, coupling and trigger models, devices, drops, signals and channel state information - is restored from its serialization as an object of the same type whose public properties have the values of the original, for every combination of its optional settings, and serializing the restored object again changes nothing. Serialization does not modify the object.",
  over=["configurations"],
  quant="about 150 object kinds x all (for large products: all pairwise) combinations of their optional parameters",
  why="The tests serialize one or two default configurations per class and compare few fields; forgotten fields only show for non-default settings.",
  files=["hermespy/core/factory.py", "hermespy/fec", "hermespy/modem", "hermespy/radar", "hermespy/beamforming", "hermespy/channel", "hermespy/simulation", "hermespy/core", "hermespy/jcas", "hermespy/hardware_loop"],
  mech=[("Serializable.serialize/Deserialize", "hermespy/core/factory.py"), ("implementations of serialize and Deserialize", "hermespy")],
  technique="bounded exhaustive enumeration of object configurations, each serialized, restored and compared on the real code",
  note="Exhaustive over the catalogue of settings. Oracle: all public properties of original and restored object, compared recursively. Known findings: beamformer focus points, six RF blocks and the device noise level have no serialization.",
  design="Catalogue of ~150 kinds of objects with values per optional parameter; all combinations up to 128 per kind (4096 thorough), pairwise above. Each object is written to an in-memory HDF5 file and restored twice; the observer enumerates public properties recursively. ~15 s on 8 cores.")

P("P01",
  title="Every Monte Carlo sample is delivered exactly once and to its own section",
  statement="However the queue manager, the collector, the actors and the driver of a Monte Carlo simulation interleave, the simulation terminates, and every artifact an actor evaluated is contained exactly once in the result, at the grid section whose parameter values were configured when the artifact was evaluated. Without early stopping every section receives exactly the requested number of samples times the number of stage argument combinations; with early stopping no section receives more, nor fewer than required to stop. The printed result contains one row per section. This holds for every order of dimensions, also if dimensions are reordered by their impact.",
  over=["schedules", "configurations"],
  quant="all schedules of the remote tasks within 1-3 deviations from two deterministic schedulers, interleaved at remote calls or at source lines; every single task delayed at every point for several spans; a few hundred grids x samples x actors x evaluators x stage arguments x consoles",
  why="Lost, duplicated or misattributed samples need a certain interleaving of four kinds of concurrent processes or a grid whose dimensions get reordered; tests run one schedule per configuration and do not compare the samples.",
  files=["hermespy/core/pymonte/monte_carlo.py", "hermespy/core/pymonte/actors.py", "hermespy/core/pymonte/grid.py", "hermespy/core/pymonte/evaluation.py"],
  mech=[("MonteCarlo.simulate", "hermespy/core/pymonte/monte_carlo.py"), ("MonteCarloActor, MonteCarloCollector, MonteCarloQueueManager", "hermespy/core/pymonte")],
  technique="stateless model checking: delay-bounded exploration of all interleavings of the real engine under a controlled scheduler replacing the ray runtime",
  note="All schedules within the delay bound on the real classes. The ray package is substituted by a controlled runtime which pickles arguments and results and honours actor concurrency; failures of the cluster are not modelled.",
  design="`mc/fakeray.py` replaces `ray.remote/get/wait/put` before HermesPy is imported. Every remote task is a thread of which exactly one runs; at every remote call, get, wait, put, sleep, and (traced runs) every source line of `core/pymonte` while another task of the same actor exists, the scheduler decides who continues. Two deterministic base schedules (run until blocked, round robin) and all deviations of up to 1-2 (thorough 2-3) skipped candidates are executed; additionally each task is frozen at each choice for 40 and 300 (thorough also 8) choices. Every artifact carries a unique number and the configuration observed during its evaluation. Deadlock and livelock (6000 points) are violations.")

P("P06",
  title="Serialized documents restore values, identities and sequences",
  statement="Whatever is written through a serialization process is read back identically, in whichever order the attributes are read and however the document is reopened: scalars, strings, ranges, enumerations and arrays of every element type and shape, nested objects and object sequences. Objects that were shared before are shared after, objects that were distinct stay distinct, also if they existed only temporarily while being written, missing values yield the requested default or an error, and values of another type are rejected instead of being returned.",
  over=["inputs", "histories", "configurations"],
  quant="all object graphs of up to three nodes with shared, temporary and sequence references x all attribute reading orders x files, in-memory documents and campaigns; all scalar and array kinds x requested types; all histories of writes and reads up to a depth",
  why="Identity depends on memory addresses, the order of access and the structure of the graph; the tests write single objects and read them once in the order of writing.",
  files=["hermespy/core/factory.py"],
  mech=[("HDFSerializationProcess", "hermespy/core/factory.py"), ("HDFDeserializationProcess", "hermespy/core/factory.py"), ("Factory.to_HDF/from_HDF", "hermespy/core/factory.py")],
  technique="bounded exhaustive enumeration of object graphs, values and access orders, each written and read by the real process against a reference",
  note="Exhaustive within the bounds on the real implementation and real HDF5 documents.",
  design="Graphs of test nodes with two child attributes, a child sequence, arrays and temporaries, all 24 reading orders, documents in memory and in files; about 6000 cases, ~25 s on 8 cores.")

P("P02",
  title="The Monte Carlo queue hands out every section exactly as often as required",
  statement="For every grid, number of samples and batch size, and every sequence of batch requests and section aborts, the queue manager of a Monte Carlo simulation only hands out existing sections that are still active, never more than the batch size and never more often than the requested number of samples. Sections that are not aborted receive exactly the requested number of samples, aborted sections are not handed out any more, aborting a finished, unknown or already aborted section changes nothing, and a batch is empty only if no section is left. The reported progress never decreases, agrees with what was handed out and reaches one exactly when no section is left.",
  over=["histories", "configurations"],
  quant="all sequences of next_batch and disable_section calls up to depth 2-6 (depending on the grid), then drained, for ten grids x 1-4 samples x six batch sizes",
  why="Off-by-one errors only show when aborts, exhausted sections and batch boundaries meet in a certain order; the tests run two fixed sequences.",
  files=["hermespy/core/pymonte/actors.py"],
  mech=[("MonteCarloQueueManager.next_batch", "hermespy/core/pymonte/actors.py"), ("MonteCarloQueueManager.disable_section", "hermespy/core/pymonte/actors.py"), ("MonteCarloQueueManager.query_progress", "hermespy/core/pymonte/actors.py")],
  technique="explicit-state exploration of all operation histories up to a depth on the real queue manager in lockstep with a reference model",
  note="Exhaustive within the bounds on the real class.",
  design="Reference: a counter per section and a set of active sections. After every operation batch content, progress and activity flags are compared, finally the queue is drained. About 97000 histories (quick: up to 700 per configuration, thorough: 20000), ~13 s.")

P("P03",
  title="Samples reflect their grid section whatever was simulated before",
  statement="Whatever sequence of sections a Monte Carlo actor is asked to simulate, in whichever batches, every artifact is evaluated while the investigated object is configured to the parameters of its section, after every stage depending on a changed parameter was executed again and with the stage argument it belongs to; each section yields one sample per combination of stage arguments in the documented order, each from an execution of its own, with one artifact per evaluator. Parameters with undeclared or unknown impacts affect all stages. If a stage fails, only samples of its own batch are dropped, and fetching results returns each of them once.",
  over=["histories", "configurations"],
  quant="all section sequences of up to three (thorough four) sections and their splits into batches x all declared impacts of one and two dimensions over three stages x stage arguments x failing stages",
  why="Skipped stages only show for particular pairs of consecutive sections and impact declarations; the tests run grids in a fixed order and do not inspect what the stages saw.",
  files=["hermespy/core/pymonte/actors.py", "hermespy/core/pymonte/grid.py"],
  mech=[("MonteCarloActor.run", "hermespy/core/pymonte/actors.py"), ("GridDimension", "hermespy/core/pymonte/grid.py"), ("RegisteredDimension", "hermespy/core/pymonte/grid.py")],
  technique="bounded exhaustive enumeration of section histories, impact declarations and stage arguments executed by real actors against a reference of stage dependencies",
  note="Exhaustive within the bounds on the real actor; impacts are assumed to be declared truthfully.",
  design="A real `MonteCarloActor` with three recording stages receives scripted batches; stage k depends exactly on the dimensions whose declared impact range contains k. The recorded inputs of every stage at evaluation time must be those of the section. About 17000 histories, ~10 s.")

P("P04",
  title="Scalar results are section means and stop early only with confidence",
  statement="For every sequence of samples, the scalar result of each grid section is the arithmetic mean of the scalars collected for it, samples without scalar value are ignored and sections without samples are not a number. An evaluator reports confidence exactly if the number of samples of the section is a multiple of its minimum, the samples vary and the probability of the mean deviating by more than the tolerance is below its configured level. The collector aborts a section exactly if all evaluators reported confidence in it, and no sample collected before or after is lost.",
  over=["histories", "inputs", "configurations"],
  quant="all sequences of up to five (thorough six) scalars over four values x eight confidence settings; interleavings of two sections; all short sample streams through a collector with one and two evaluators",
  why="The stopping rule depends on running sums, counts and the order of samples; tests check a single abort.",
  files=["hermespy/core/pymonte/scalar.py", "hermespy/core/pymonte/actors.py"],
  mech=[("ScalarEvaluationResult.add_artifact", "hermespy/core/pymonte/scalar.py"), ("MonteCarloCollector", "hermespy/core/pymonte/actors.py")],
  technique="bounded exhaustive enumeration of sample sequences through the real result and collector classes against a reference",
  note="Exhaustive within the bounds; decisions closer than 1e-9 to the threshold are accepted either way.",
  design="Reference: mean, unbiased deviation and the normal distribution computed from the list of samples. The collector runs below the controlled ray runtime with a scripted actor and a queue recording aborted sections. About 19000 sequences, ~5 s.")

P("P05",
  title="Random outcomes depend on the seed and the own history only",
  statement="The random samples of every seeded object are determined by its seed, its configuration and the operations performed on it since: repeating them reproduces the same samples bit by bit, whatever the global random state is, whatever other objects draw in between, and after pickling into another process. Linking a node to a random mother makes it draw from the mother's generator until it is detached or seeded. Every stochastic component of a simulation scenario (devices, hardware models, operators, channels, default channels, channel codings, triggers) follows the scenario's seed, in whichever order the scenario is assembled. Different seeds yield different samples.",
  over=["histories", "configurations", "schedules"],
  quant="all histories of seeding, linking and drawing on three random nodes up to a depth; a catalogue of all stochastic components x seeds x disturbances; all assembly orders of scenarios; interleavings of two scenarios; simulation actors of a pickled scenario",
  why="A component left unlinked from the seed draws from entropy, which stays invisible unless two runs of precisely this component are compared; tests compare single components at most.",
  files=["hermespy/core/random_node.py", "hermespy/simulation/simulation.py", "hermespy/simulation/scenario.py", "hermespy/simulation/simulated_device.py", "hermespy/channel", "hermespy/fec"],
  mech=[("RandomNode", "hermespy/core/random_node.py"), ("SimulationScenario, SimulationActor", "hermespy/simulation/simulation.py"), ("Channel", "hermespy/channel/channel.py")],
  technique="explicit-state exploration of operation histories on the real random nodes in lockstep with a reference, and exhaustive enumeration of seeded configurations, assembly orders and interleavings executed twice and compared bit by bit",
  note="Exhaustive within the bounds on the real code. Triggers are only claimed within scenarios, and operators with an explicit seed of their own keep it in every actor.",
  design="Reference of nodes: a tree of `numpy` generators created by seeding or detaching. Components are run twice from the same seed with the global random states disturbed differently and other instances drawing in between; results are digested completely. Scenarios are assembled in all orders of adding devices, operators, channels and setting the seed.")

P("P08",
  title="Coordinate frames agree with the composition of their poses",
  statement="A frame's position, orientation and transformation towards the world equal the composition of its own pose with the poses of all its reference frames, whichever poses, positions, orientations, look-at targets and references were changed before in whichever order, and frames never alias the arrays they were given or returned. Conversions between rotation matrices, roll-pitch-yaw angles, quaternions, Cartesian and spherical directions are consistent with each other for all angles including gimbal lock, transformations invert and compose as rigid motions, and looking at a target turns the view direction towards it.",
  over=["histories", "inputs"],
  quant="all histories of pose, position, orientation, look-at and reference changes up to depth 2-4 on three frames x initial chains x warm and cold caches; a grid of all multiples of 30 and 45 degrees of three angles; all directions of a grid; all pairs of positions, targets and up vectors of a lattice",
  why="Cached world poses are only stale after certain combinations of re-parenting and moving ancestors, and singular orientations form a set of measure zero.",
  files=["hermespy/core/transformation.py"],
  mech=[("Transformable, TransformableBase", "hermespy/core/transformation.py"), ("Transformation, Direction", "hermespy/core/transformation.py")],
  technique="explicit-state exploration of operation histories on real frames in lockstep with a reference, plus exhaustive enumeration of lattices of rotations and directions",
  note="Exhaustive within the bounds on the real classes; angles are checked on a lattice containing all singular orientations.",
  design="Reference: 4x4 matrices built from elementary rotations and multiplied along the chain of parents. All frames are compared after every operation, caches warmed or not, about 30000 histories.")

P("P18",
  title="Antenna arrays respond as their elements' poses and modes demand",
  statement="The number of antennas and ports, positions, topologies, characteristics, and spherical and planar phase responses of antenna arrays are those following from the modes, poses, weights and field patterns of their elements, for every orientation of the array and of each element; polarisation is rotated into the global frame. Transmitting and receiving ports select exactly the elements of the requested mode in order, and signals are distributed to and combined from them accordingly; radiated and received power patterns superimpose the responses of all elements by their weights and those of a beamformer. This remains true after any sequence of adding, removing, moving and reconfiguring elements and arrays and for the array states reported by devices.",
  over=["configurations", "histories", "inputs"],
  quant="all element kinds x modes x slants x poses x weights of uniform and custom arrays; subsets of three and four elements of all mode combinations; operation histories up to a depth; directions of a sphere grid including the poles",
  why="Errors appear in certain combinations of element orientation, array pose and antenna modes, of which the tests sample a few with mocks.",
  files=["hermespy/core/antennas.py", "hermespy/simulation/antennas.py"],
  mech=[("AntennaArray, AntennaArrayState", "hermespy/core/antennas.py"), ("UniformArray, CustomAntennaArray", "hermespy/core/antennas.py"), ("SimulatedAntennaArray", "hermespy/simulation/antennas.py")],
  technique="bounded exhaustive enumeration of array configurations and operation histories executed on the real classes against an independent reference of positions, phases and fields",
  note="Exhaustive within the bounds. The angular pattern of the patch antenna is the implemented one; its definition is not judged.",
  design="The reference evaluates local field patterns, rotates them as vectors by the element's world pose and projects them onto the global zenith and azimuth unit vectors; phases follow from the distance of element positions.")

P("P29",
  title="Moving objects follow their trajectories and device states report them",
  statement="A linear trajectory starts and ends in its poses, moves with constant velocity from its first instant on and turns about a constant axis with constant rate in between, and rests before and after; static trajectories rest; the b-shaped trajectory passes continuously with a velocity being the derivative of its position. Looking at a target, itself possibly moving, turns the orientation towards the target's position at that time. Trajectories do not depend on later changes of the arguments they were given, samples are independent of each other, and a device's state at any time reports the pose and velocity of its trajectory and the poses of its antennas relative to it.",
  over=["inputs", "configurations", "histories"],
  quant="all pairs of poses of a lattice x durations x start times x sampling times at, around and between all edges; all pairs of tracked and tracking trajectories; devices x trajectories x antenna array poses x times",
  why="Boundary instants, singular orientations and tracked targets are special inputs, of which tests sample one each.",
  files=["hermespy/simulation/animation.py", "hermespy/simulation/simulated_device.py"],
  mech=[("LinearTrajectory, StaticTrajectory, BITrajectoryB", "hermespy/simulation/animation.py"), ("SimulatedDevice.state", "hermespy/simulation/simulated_device.py")],
  technique="bounded exhaustive enumeration of trajectories and sampling times executed on the real classes against a kinematic reference",
  note="Exhaustive within the bounds. A simulated device's position set after construction is superseded by its trajectory, which is not judged.",
  design="Velocities are compared to differences of neighbouring positions, rotations by their angles to both ends; arguments and results are overwritten to detect aliasing.")

P("P10",
  title="Constellations map bits one to one and detect the nearest symbol",
  statement="Every constellation maps each label to its own symbol, following 3GPP TS 36.211 for the built-in ones and the given symbols for custom ones, with unit mean power. Detection returns the label of the nearest constellation symbol for every received value, so that mapped bit sequences are recovered exactly, and the signs of the soft output agree with the hard decision while its magnitude is proportional to the difference of squared distances to the nearest symbols of both bit values. The configuration of a constellation, including soft output and real-valued modes, survives serialization.",
  over=["inputs", "configurations"],
  quant="all supported orders, real and complex, soft and hard; custom constellations of two and four points of a lattice; all labels, all short symbol sequences; received values on a lattice including decision boundaries",
  why="A wrong threshold or label concerns single symbols of single orders; the tests compare a few random bit vectors.",
  files=["hermespy/modem/tools/psk_qam_mapping.py"],
  mech=[("PskQamMapping.get_symbols", "hermespy/modem/tools/psk_qam_mapping.py"), ("PskQamMapping.detect_bits", "hermespy/modem/tools/psk_qam_mapping.py")],
  technique="bounded exhaustive enumeration of constellations, labels, sequences and received lattice points on the real mapping against a reference",
  note="Exhaustive within the bounds. The scale of log-likelihood ratios is only required to be positive (BPSK and QPSK use half of the others' factor).",
  design="The reference labels follow the folding construction of TS 36.211; detection is compared with a brute force nearest-symbol search over a lattice of received values; values equidistant to two symbols may take either. ~5 s.")

P("P11",
  title="Single-carrier and chirp waveforms place, shape and recover every symbol",
  statement="Single-carrier waveforms place preamble, data and postamble pilot symbols in the configured order and number, modulate them into the superposition of the symbols' analytic pulses (raised cosine, root raised cosine, rectangular, FMCW), report the number of symbols, bits and samples of the frame actually generated, and demodulate what they modulated into the same symbols and bits, for every parametrisation and oversampling, also after parameters are changed in any order. Chirp FSK waveforms do so with chirps of the configured start frequencies and slopes and guard intervals of silence. Channel estimation recovers constant channels from pilots and equalisation inverts them.",
  over=["configurations", "histories", "inputs"],
  quant="all combinations of pulse kinds, filter lengths, roll-offs, oversampling factors, bandwidths, frame layouts, pilots and modulation orders of the catalogue; all histories of parameter changes up to a depth; all small channel matrices of a lattice",
  why="Index arithmetic between symbols, pilots, filter delays and oversampling goes wrong for certain parities and lengths only; the tests check one layout per waveform.",
  files=["hermespy/modem/waveform_single_carrier.py", "hermespy/modem/waveform_chirp_fsk.py", "hermespy/modem/waveform.py"],
  mech=[("FilteredSingleCarrierWaveform", "hermespy/modem/waveform_single_carrier.py"), ("ChirpFSKWaveform", "hermespy/modem/waveform_chirp_fsk.py"), ("pilot and equalisation classes", "hermespy/modem/waveform_single_carrier.py")],
  technique="bounded exhaustive enumeration of waveform configurations and reconfiguration histories executed on the real waveforms against analytic pulses and layouts",
  note="Exhaustive within the bounds. The single-carrier guard interval (marked as to do in the code), relative bandwidths other than one and chirp durations that are no multiple of the sampling interval are not claimed.",
  design="Pulses are evaluated from their closed forms and superimposed; the result is compared with the modulated samples and fed back into demodulation. ~16 s.")

P("P13",
  title="Orthogonal waveforms place, transform and recover every grid element",
  statement="OFDM, OTFS and OCDM waveforms put data, reference and null elements, prefixes, guards and pilot sections at exactly the positions configured by their grid resources and structures, transform each word by the respective transform, prepend cyclic or zero prefixes of the configured length, suppress the DC subcarrier if requested, and report numbers of symbols, words, bits, samples and durations that agree with the frames generated. Demodulation and picking recover the symbols and bits placed, also after resources, structure, subcarriers or pilots are changed in any order. Channel estimates at reference elements equal the channel and are interpolated in between, and equalisation inverts it.",
  over=["configurations", "histories", "inputs"],
  quant="a catalogue of grid resources and structures x numbers of subcarriers x prefixes x oversampling x DC suppression x modulation orders x three waveforms; all histories of reconfiguration up to a depth; all reference patterns of small grids",
  why="Positions are computed from nested repetitions and prefix lengths, whose combinations the tests sample with a single frame.",
  files=["hermespy/modem/waveforms/orthogonal/waveform.py", "hermespy/modem/waveforms/orthogonal/ofdm.py", "hermespy/modem/waveforms/orthogonal/otfs.py", "hermespy/modem/waveforms/orthogonal/ocdm.py"],
  mech=[("OrthogonalWaveform", "hermespy/modem/waveforms/orthogonal/waveform.py"), ("GridResource, GridSection", "hermespy/modem/waveforms/orthogonal/waveform.py")],
  technique="bounded exhaustive enumeration of grid configurations and reconfiguration histories executed on the real waveforms against a word-by-word reference",
  note="Exhaustive within the bounds. The 5G NR synchronisation section, sample offsets of OTFS and OCDM and least-squares estimation without references are not claimed.",
  design="The reference builds the grid element by element, transforms words by explicit matrices and concatenates prefixes and guards. ~7 s quick, 50 s thorough.")

P("P12",
  title="Symbol precodings restore the symbols they encode over every channel",
  statement="Alamouti and Ganesan codes transmit mutually orthogonal streams carrying the energy of their input and, like the DFT precoding of every normalisation and chains of them, are inverted by decoding with the channel states, for every channel and any number of receive antennas. Maximum ratio combining weights the antennas by their conjugate channel, selection picks the antenna of the strongest channel, and after each decoding step the reported channel states relate the decoded to the transmitted symbols. Stream counts, block counts and rates reported by chains agree with the symbols they produce, chains that do not fit the number of streams are rejected, and symbols and states passed to a step are not modified. Chains and symbol containers change precisely as requested by adding, replacing and removing precoders, streams and symbols.",
  over=["inputs", "configurations", "histories"],
  quant="all symbols and channels of a complex lattice x group, block and antenna counts x dense and sparse states; all chains of up to three (thorough four) precoders x combiners x streams; all histories of chain and container operations up to a depth",
  why="Sign, conjugation and index errors concern single elements of the code and vanish for the few antenna counts and block lengths of the tests.",
  files=["hermespy/core/precoding.py", "hermespy/modem/precoding/symbol_precoding.py", "hermespy/modem/precoding/space_time_block_coding.py", "hermespy/modem/precoding/dft.py", "hermespy/modem/precoding/ratio_combining.py", "hermespy/modem/precoding/single_carrier.py", "hermespy/modem/symbols.py"],
  mech=[("Alamouti, Ganesan", "hermespy/modem/precoding/space_time_block_coding.py"), ("TransmitSymbolCoding, ReceiveSymbolCoding", "hermespy/modem/precoding/symbol_precoding.py"), ("Symbols", "hermespy/modem/symbols.py")],
  technique="bounded exhaustive enumeration of symbols, channels, precoding chains and operation histories on the real classes against reference code matrices",
  note="Exhaustive within the bounds. Alamouti codes assume a channel constant over two blocks, DFT precoding one constant over all blocks.",
  design="Reference code matrices are written out; received symbols are obtained by explicit multiplication with the lattice channels. ~21 s.")

P("P14",
  title="Scenarios route every transmission over the configured channels to every device",
  statement="Within a scenario, any two devices are linked by exactly one channel: the channel last configured for the pair, or the default channel, in either order of the devices. Registering devices, configuring channels and querying channels, devices and operators in any order agrees with a plain registry, invalid requests are rejected and change nothing. In a drop, each device receives at each requested time the superposition of every device's transmission - its own included - propagated over the channel linking both at their positions at that time, exactly once, linearly and in the order of the devices. Channels of zero gain contribute nothing.",
  over=["histories", "configurations"],
  quant="all histories of registering and configuring up to a depth for up to three devices x default gains; all assignments of channels to pairs of devices x sets of transmitting and receiving devices x times",
  why="Links live in a hash table of device pairs; which pairs are configured, replaced or left at their default differs in every use, while the tests configure one channel once.",
  files=["hermespy/simulation/scenario.py", "hermespy/core/scenario.py", "hermespy/simulation/drop.py"],
  mech=[("SimulationScenario", "hermespy/simulation/scenario.py"), ("Scenario", "hermespy/core/scenario.py")],
  technique="bounded exhaustive enumeration of configuration histories and drops executed on real scenarios next to a reference registry",
  note="Exhaustive within the bounds, with ideal channels distinguished by their gains. Links are not part of a scenario's serialization, which the documentation calls experimental.",
  design="A plain dictionary of pairs mirrors the scenario after every operation; received samples are compared with the sum of the transmissions weighted by the gains of the reference. ~12 s.")

P("P15",
  title="Recorded drops are replayed exactly as they were generated",
  statement="A scenario that records its drops to a file stores every drop generated while recording, and only those, in the selected campaign. Replaying a campaign - by the recording scenario, by an equally configured scenario or by a scenario loaded from the file, completely or from an offset - yields these drops in their order with all their transmissions, channel realizations and receptions, reports the transmissions and receptions to the same callbacks, and ends after the last drop. Several campaigns and files do not affect each other, no history of recording, replaying, stopping and failing requests alters what has been recorded, and the mode, campaign and number of drops reported by the scenario are those of the history.",
  over=["histories", "configurations"],
  quant="all histories of recording, dropping, stopping, replaying and loading over two files and several campaigns up to a depth; a catalogue of scenario kinds x numbers of drops x offsets",
  why="Recording and replay share counters, file handles and operator states; errors show only for certain sequences of modes or kinds of receptions, of which the tests replay one.",
  files=["hermespy/core/scenario.py", "hermespy/core/drop.py", "hermespy/core/device.py", "hermespy/simulation/drop.py", "hermespy/simulation/scenario.py", "hermespy/core/factory.py"],
  mech=[("Scenario.record, replay, stop, drop, Replay", "hermespy/core/scenario.py"), ("SimulatedDrop", "hermespy/simulation/drop.py"), ("DropType.Deserialize", "hermespy/core/drop.py")],
  technique="bounded exhaustive enumeration of record and replay histories executed on real scenarios and files next to a model of the recordings",
  note="Exhaustive within the bounds. Oracle: recursive snapshots of all public properties of the drops when they were generated. Physical scenarios and the console backend are not covered.",
  design="Each history runs on HDF5 files in a scratch folder; a dictionary from files and campaigns to snapshots is the model, and at the end of each history all campaigns are replayed. ~28 s.")

P("P32",
  title="Channel state information describes one linear channel in all representations",
  statement="Channel state information represents one linear time-variant channel: propagating a signal over it is the convolution of the transmitted streams with the impulse responses, its linear transformation tensor multiplies signals with exactly this channel for any number of receive streams, transmit streams, samples and taps, and converting it to the frequency domain with at least as many bins as taps and back, storing it densely or sparsely, serializing it, slicing, concatenating, iterating over streams or samples and taking the reciprocal never change the channel coefficients beyond the selection made. Propagation leaves the propagated signal unmodified.",
  over=["inputs", "histories"],
  quant="all dimensions up to 3 streams x 3 samples x 3 taps, dense and sparse, both formats, every basis impulse; all histories of conversions, slices, assignments, concatenations, propagations and serializations up to a depth",
  why="The coefficients live in one four-dimensional tensor whose axes are reinterpreted by every operation; unequal numbers of streams, samples, taps and bins expose mixed-up axes, the tests use a few fixed dimensions.",
  files=["hermespy/core/channel.py"],
  mech=[("ChannelStateInformation.linear, to_impulse_response, to_frequency_selectivity, propagate, __getitem__, concatenate, reciprocal", "hermespy/core/channel.py")],
  technique="bounded exhaustive enumeration of tensor dimensions and operation histories executed next to an explicit channel model, linear maps decided on all basis impulses",
  note="Exhaustive within the bounds. Frequency conversions with fewer bins than taps are not covered.",
  design="The model is the plain tensor of impulse responses and the current number of bins. All coefficients are distinct generic numbers, so any exchange of axes or indices differs. ~15 s.")

P("P23",
  title="Channel propagation is linear, matches its channel state and scales with gain",
  statement="For every channel model, every sampled link between two devices - any number and mode of antennas, at rest or moving - is a linear causal map from transmitted to received streams which equals the convolution with the channel state information reported for the sample, repeats identically, and leaves the transmitted signal unmodified. Sparse signals propagate by block, truncated states hold the first taps, and signals with a wrong number of streams are rejected. The channel gain scales received power, channel state and expected energy alike. Delay channels delay by the configured time and attenuate by free-space loss. Reciprocal samples hold the transposed channel.",
  over=["inputs", "configurations"],
  quant="27 channel models x 11 pairs of antenna arrays (duplex, transmit-only, receive-only, polarized) x at rest or moving x every basis impulse and superposition x gains; delays x bandwidths",
  why="Each model implements propagation and state separately; deviations appear only for asymmetric arrays, gains other than one, polarized antennas or block boundaries, of which the tests use few.",
  files=["hermespy/channel/channel.py", "hermespy/channel/ideal.py", "hermespy/channel/delay/delay.py", "hermespy/channel/delay/random.py", "hermespy/channel/delay/spatial.py", "hermespy/channel/fading/fading.py", "hermespy/channel/radar/radar.py", "hermespy/channel/radar/multi.py", "hermespy/channel/radar/single.py", "hermespy/channel/cdl/cluster_delay_lines.py"],
  mech=[("ChannelSample.propagate, ChannelSample.state", "hermespy/channel/channel.py"), ("MultipathFadingSample", "hermespy/channel/fading/fading.py"), ("RadarChannelSample", "hermespy/channel/radar/radar.py"), ("ClusterDelayLineSample", "hermespy/channel/cdl/cluster_delay_lines.py")],
  technique="bounded exhaustive enumeration of channel models, antenna arrays and basis impulses executed on the real samples against their channel state and an explicit time-variant convolution",
  note="Exhaustive within the bounds for the drawn realizations; the statistical distribution of realizations is not decided. Reciprocity of cluster delay lines only for devices at rest, block-wise propagation restarts the phase of time-variant channels at each block.",
  design="A linear map is decided on all basis impulses: each impulse of each antenna at each sample is propagated and compared with the state tensor. ~15 s.")

P("P24",
  title="Channel realizations are fixed, reproducible and restorable draws",
  statement="A channel realization is a fixed draw: every sample taken from it for the same devices, time, carrier and bandwidth is identical, no matter which other samples, realizations, parameter changes or propagations happened before, whether the devices or their states were passed, and after serializing and restoring the realization. It uses the channel parameters at the time it was drawn. Equally configured and seeded channels draw equal sequences of realizations, seeding again restarts them, and different draws or seeds differ for every random model. Propagation over a channel draws a new realization and caches it unless told otherwise. Spatially consistent models vary continuously with the positions of the devices and static ones don't vary at all.",
  over=["histories", "configurations"],
  quant="all histories of realize/configure/sample/restore/propagate up to depth 3 over 36 channel models x three links",
  why="Realizations share objects, random generators and caches with their channel; only sequences mixing parameter changes, further draws and samples expose aliasing or hidden draws while sampling.",
  files=["hermespy/channel/channel.py", "hermespy/channel/consistent.py", "hermespy/channel/delay/random.py", "hermespy/channel/fading/fading.py", "hermespy/channel/radar/single.py", "hermespy/channel/radar/multi.py", "hermespy/channel/cdl/cluster_delay_lines.py", "hermespy/channel/cdl/urban_macrocells.py", "hermespy/channel/cdl/indoor_office.py"],
  mech=[("Channel.realize, Channel.propagate", "hermespy/channel/channel.py"), ("ConsistentRealization, ConsistentGenerator", "hermespy/channel/consistent.py"), ("MultipathFadingRealization", "hermespy/channel/fading/fading.py"), ("ClusterDelayLineRealizationBase", "hermespy/channel/cdl/cluster_delay_lines.py")],
  technique="bounded exhaustive enumeration of histories of draws, parameter changes, samples and serializations executed on the real channels against a history-free reference",
  note="Exhaustive up to the stated depth for fixed seeds; the statistical distribution of the draws is not decided. Objects handed to a channel (targets, correlation models) are not modified in place.",
  design="The reference of each sample is computed on a fresh channel which only repeats the draws and parameter changes. Cluster delay line models, whose samples are slow, run one level shallower.")

P("P22",
  title="Evaluators report the errors, powers and detections of the latest results",
  statement="Bit, block and frame errors, throughput and constellation errors compare the latest transmission and reception of the evaluated link only: missing or surplus bits, blocks and frames count as errors, results of other modems, rejected receptions and runs without notification count as nothing, and evaluating is repeatable and fails before the first results exist. Powers, peak to average ratios and extracted samples equal those of the delivered signals, dense or sparse. Receiver operating characteristics give, for each section of the grid, the fractions of drops whose test statistic reaches each threshold, stem from the same drops in recorded, replayed and live campaigns, and their null hypothesis is the same drop without target. Detection probabilities and root mean square errors equal those of the history of point clouds.",
  over=["inputs", "histories"],
  quant="all pairs of transmitted and received frame contents up to three frames, all histories of transmissions, receptions, rejections and evaluations of two links up to depth 3, all campaigns up to four drops, all detection histories up to length 4",
  why="Evaluators are fed by callbacks and remember results; lost or surplus frames, interleaved links and histories that straddle hypotheses are not sampled by the unit tests.",
  files=["hermespy/modem/evaluators.py", "hermespy/core/evaluators.py", "hermespy/core/pymonte/scalar.py", "hermespy/radar/evaluators.py", "hermespy/radar/cube.py"],
  mech=[("CommunicationEvaluator, BlockErrorEvaluator", "hermespy/modem/evaluators.py"), ("SignalExtractor, PowerEvaluator, PAPR", "hermespy/core/evaluators.py"), ("ReceiverOperatingCharacteristic, RocEvaluationResult", "hermespy/radar/evaluators.py")],
  technique="bounded exhaustive enumeration of frame contents, delivery histories and recorded campaigns executed on the real evaluators against direct definitions",
  note="Exhaustive within the bounds; throughput is only decided for frames of equal size, the statistics of noise is not decided.",
  design="Modems whose results are prescribed deliver every pair of contents; operating characteristics are recomputed from the enumerated test statistics.")

P("P16",
  title="Hooks observe every output exactly once until they are removed",
  statement="From its registration to its removal, every callback registered at a hookable layer, at a transmitting or receiving operator, at a device's output and input stages or at a channel's samples is notified of each output exactly once and with the very object the caller receives, in every order of registrations, repeated registrations and removals, removals within callbacks and notifications. Disabling notifications of an operation silences the operators' callbacks only for that operation. Sample hooks restricted to a transmitter or receiver observe samples of matching links only, whether sampled by devices, states, reciprocally or by propagating signals over any channel model, as registered when the channel was realized. Drops of a scenario notify each registered operator once - generated, recorded or replayed - of the transmission and reception contained within the drop.",
  over=["histories", "schedules", "configurations"],
  quant="all histories of 8 hook operations up to depth 5 (6); 8 operator kinds x histories of depth 3 (4); devices' six hook points x depth 3 (4); 27 channel models x 6 link restrictions x histories of depth 2 to 3 (4); scenario histories of recording, replaying and hooking",
  why="Evaluators, matched filters and feedback loops rest on hooks: a missed, repeated or foreign notification makes them evaluate stale data without any error, and depends on the history of registrations.",
  files=["hermespy/core/hooks.py", "hermespy/core/device.py", "hermespy/simulation/simulated_device.py", "hermespy/channel/channel.py", "hermespy/core/scenario.py"],
  mech=[("Hookable, Hook", "hermespy/core/hooks.py"), ("Transmitter.transmit, Receiver.receive", "hermespy/core/device.py"), ("SimulatedDevice.generate_output, process_input", "hermespy/simulation/simulated_device.py"), ("ChannelSampleHook, ChannelRealization.sample, reciprocal_sample", "hermespy/channel/channel.py"), ("Scenario.drop", "hermespy/core/scenario.py")],
  technique="exhaustive exploration of registration, removal and notification histories on the real hooks, operators, devices, channels and scenarios against the list of outputs each callback is due",
  note="Exhaustive within the bounds; whether a hook registered or removed by another callback during a notification observes it is left open.",
  design="Callbacks log the objects they receive, compared by identity to the operation's return values. ~35 s.")

P("P17",
  title="Radio-frequency chains route and process samples along their connections",
  statement="A chain of radio-frequency blocks transforms the samples of its signal processing ports into those of its antenna ports, and back, exactly as the composition of its blocks along the configured connections: every connection carries the samples of its output port to its input port regardless of the order or grouping in which ports were connected, undriven ports carry zeros, open ports form the chain's inputs and outputs in order of the blocks, and port counts agree with the signals. Rejected connections change nothing, and serializing and restoring a chain keeps its behaviour. Converters keep the number of samples, filter linearly and only outside their bandwidth; mixing up and down returns samples and carrier; block noise is fixed per realization, independent of the signal and of the configured power; sources hold amplitude and carrier. The named ports of a block are its inputs and outputs, each exactly once. Propagation leaves its inputs unmodified.",
  over=["inputs", "configurations", "histories"],
  quant="25 sets of up to four blocks (converters, splitters, sums, amplifiers, phase shifters, sources) x every sequence of up to three connections in single and grouped, forward and reverse form x every block of invalid connections; 0 to 200 filtered samples x five oversampling factors",
  why="The unit tests wire a handful of fixed chains; fan-out, fan-in, partially connected multi-port blocks, repeated connections and short signals only appear when wirings are enumerated.",
  files=["hermespy/simulation/rf/chain.py", "hermespy/simulation/rf/block.py", "hermespy/simulation/rf/signal.py", "hermespy/simulation/rf/blocks/ad.py", "hermespy/simulation/rf/blocks/mixers.py", "hermespy/simulation/rf/blocks/source.py", "hermespy/simulation/rf/noise/level.py"],
  mech=[("RFChain.connect, RFChain.transmit, RFChain.receive", "hermespy/simulation/rf/chain.py"), ("RFBlock.propagate", "hermespy/simulation/rf/block.py"), ("RFSignal", "hermespy/simulation/rf/signal.py")],
  technique="bounded exhaustive enumeration of connection sequences executed on the real chains against an interpreter of the connections as a linear map",
  note="Exhaustive within the bounds; connections are free of loops and each input port is connected once. Memory polynomial amplifiers are not claimed.",
  design="Blocks without memory are matrices; the model composes them along the wires and is compared with transmit, receive and port counts after every connection of every sequence. ~25 s.")

P("P20",
  title="Devices deliver transmitted and impinging samples to antennas and operators",
  statement="A device's output is the sum of its operators' transmissions, each placed on the ports selected by its operator, encoded by the device's stream encoders and routed to the antennas by its radio-frequency chain, scaled to the device's power, at its carrier frequency and delayed by its trigger. What an operator receives is the sum of all impinging and leaking signals, each at its delay relative to the trigger - earlier samples cropped, later ones preceded by zeros -, routed from the antennas, decoded and reduced to the operator's selected ports in the selected order. The result depends on the current configuration and the passed signals only, is the same for every form in which signals are passed, leaves them unmodified, and notifies each callback exactly once, operators only on request.",
  over=["inputs", "configurations", "histories"],
  quant="six antenna arrays x five codings and front-ends x all port selections x operator transmissions of 0 to 5 samples or none, dense or sparse; up to three impinging signals x delays x triggers x five input forms x leakage; triggers by samples and time at six sampling rates; all histories of reconfigurations up to depth 2",
  why="Ports, delays, triggers, codings and input forms combine freely in users' simulations, while the unit tests fix one operator, one signal and no trigger offset.",
  files=["hermespy/simulation/simulated_device.py", "hermespy/core/device.py", "hermespy/core/precoding.py", "hermespy/core/signal_model.py", "hermespy/simulation/antennas.py", "hermespy/simulation/rf/chain.py"],
  mech=[("SimulatedDevice.generate_output, SimulatedDevice.process_from_realization", "hermespy/simulation/simulated_device.py"), ("Device.generate_output, Device.process_input", "hermespy/core/device.py"), ("TransmitSignalCoding, ReceiveSignalCoding", "hermespy/core/precoding.py"), ("TriggerRealization", "hermespy/simulation/simulated_device.py")],
  technique="bounded exhaustive enumeration of operators, ports, signals, delays, triggers and reconfiguration histories executed on the real devices against a placement of samples by definition",
  note="Exhaustive within the bounds; signals share the device's sampling rate and carrier frequency, devices are free of noise (P31) and operators are not separated.",
  design="Distinct generic samples make every misplacement visible; physical devices are checked on a minimal subclass of Device. ~25 s.")

P("P25",
  title="Logarithmic numbers and sequences always represent their linear value",
  statement="A logarithmic number created from decibels or a linear value, by the class, the shorthand or conversion functions, in power or amplitude scale, equals its linear value in all arithmetic and comparisons, reports the corresponding decibels and keeps its scale; converting back and forth is the identity. Sequences behave like arrays of their linear values through every history of copying, pickling, slicing, masking, sorting, arithmetic and in-place modification: their decibel view, elements, iteration and display always describe the current linear content, never that of the sequence they were derived from. Values without logarithm are rejected.",
  over=["inputs", "histories"],
  quant="27 values x both scales x all operators and comparisons with numbers and logarithmic numbers of both scales; 5 sequences x 6 ways of creation x all histories of 30 derivations and in-place modifications up to depth 2 (3 in the thorough tier)",
  why="Sequences cache decibels besides the linear samples numpy operates on; stale or misordered views only appear after particular combinations of derivation and modification, and shift whole result axes by some dB.",
  files=["hermespy/core/logarithmic.py", "hermespy/tools/math.py"],
  mech=[("Logarithmic", "hermespy/core/logarithmic.py"), ("LogarithmicSequence", "hermespy/core/logarithmic.py"), ("dB", "hermespy/core/logarithmic.py"), ("db2lin, lin2db", "hermespy/tools/math.py")],
  technique="explicit-state enumeration of all operation histories on the real sequences next to a list of linear values",
  note="Exhaustive within the bounds; sequences are one-dimensional, the text's rounding to two digits is not judged.",
  design="The reference is a plain array and the definition 10^(x/10) or 10^(x/20); after every operation all accessors are compared. ~15 s.")

P("P30",
  title="Swept parameters reach every considered object and exactly their section's drops",
  statement="A grid dimension assigns each sample point - plain, logarithmic, scalar or labelled - to the named attribute, property, registered scalar or method of all its considered objects along the whole dotted path, at every configuration and also after sub-objects were replaced; out-of-range points and unknown attributes are rejected. Its stage impacts are the union range of those registered by the objects, titles and plot scales follow registrations unless overridden. A campaign's list of dimensions reflects additions and removals. In complete simulation campaigns every evaluated drop of every section - for any number of actors, samples, batches, dimensions and moving devices - was generated with exactly the parameters of its section: no stale parameter of another section reaches it, and its timestamp only depends on its index.",
  over=["configurations", "histories", "schedules"],
  quant="4 kinds of attributes x 6 kinds of points x paths of up to 2 x 3 objects x all configuration/replacement histories of up to 3 (4) steps; all triples of registered impacts; grid histories up to depth 4 (5); campaigns over 14 sweeps and their pairs (triples) x actors x samples x motion on the real simulation pipeline",
  why="Campaigns skip pipeline stages a parameter is not registered to impact and reuse realizations; a parameter silently not applied yields smooth but wrong curves that no sampled test notices.",
  files=["hermespy/core/pymonte/grid.py", "hermespy/core/pymonte/actors.py", "hermespy/core/pymonte/monte_carlo.py", "hermespy/simulation/simulation.py"],
  mech=[("GridDimension.configure_point", "hermespy/core/pymonte/grid.py"), ("RegisteredDimension, register", "hermespy/core/pymonte/grid.py"), ("MonteCarlo.add_dimension, MonteCarlo.remove_dimension", "hermespy/core/pymonte/monte_carlo.py"), ("MonteCarloActor.run", "hermespy/core/pymonte/actors.py"), ("SimulationActor", "hermespy/simulation/simulation.py")],
  technique="exhaustive enumeration of dimension configurations, histories and sweep campaigns executed on the real grid and simulation pipeline over a controlled remote runtime, against parameters read back from the delivered samples",
  note="Exhaustive within the bounds; remote calls run under the fair schedule of the controlled runtime (interleavings are explored by the campaign scheduling checks); a path swept by one dimension is not replaced by another.",
  design="Signals carry their configuration: amplitude, phase, gain, power, noise, carrier and position are decoded from what the evaluator receives and compared to the section's parameters. ~20 s.")

P("P21",
  title="Radars locate echoes in range, Doppler and direction, detectors report them",
  statement="For any FMCW configuration (also reached by reconfiguration), OFDM radar and matched-filter joint operator, an echo delayed by a range bin, shifted by a Doppler bin and arriving from a probed direction dominates the radar cube at exactly the bins whose range, (relative) Doppler magnitude and angles describe it; opposite Doppler shifts appear mirrored; a suppressed carrier or missing guard interval moves the peak by no more than one bin. Bins, resolutions, maximum ranges, frame lengths, energies and cube shapes agree with each other and with the parameters; cubes reach from the minimal range on and equal the unrestricted cube there; joint operators refer to their most recent transmission; targets of simulated radar channels are located within a range cell. Cubes reject mismatching bins. The maximum, threshold (absolute or normalized, with or without peak search) and constant false alarm rate detectors report exactly the bins fulfilling their criterion, at the positions, velocities and powers of these bins, and windows exceeding the cube, missing waveforms, beamformers or transmissions are errors.",
  over=["inputs", "configurations", "histories"],
  quant="all cubes of up to six (eight) cells with three power levels x detector settings; all single and paired targets in CFAR windows of 12 shapes x 3 probabilities; 1..6 (8) chirps x 4 repetition intervals x 3 oversamplings x 4 converter rates, every range bin up to 35 % of the maximum and every Doppler bin of both signs; 5 directions x 4 arrays; OFDM of 8 to 16 carriers and up to 4 (6) words; joint operators with one or one stream per antenna",
  why="Wrong axes, odd bin counts, scaled or shifted bins still produce plausible cubes; the existing tests look at a single target in the middle, on even dimensions and mostly only at shapes.",
  files=["hermespy/radar/fmcw.py", "hermespy/radar/radar.py", "hermespy/radar/cube.py", "hermespy/radar/detection.py", "hermespy/jcas/matched_filtering.py", "hermespy/jcas/ofdm_radar.py", "hermespy/jcas/jcas.py"],
  mech=[("FMCW.ping, estimate, range_bins, relative_doppler_bins", "hermespy/radar/fmcw.py"), ("Radar._receive, RadarBase._receive_beamform", "hermespy/radar/radar.py"), ("RadarCube", "hermespy/radar/cube.py"), ("ThresholdDetector.detect, MaxDetector.detect, CFARDetector.detect", "hermespy/radar/detection.py"), ("MatchedFilterJcas._receive", "hermespy/jcas/matched_filtering.py"), ("OFDMRadar._receive", "hermespy/jcas/ofdm_radar.py")],
  technique="exhaustive enumeration of radar configurations, echoes and radar cubes executed on the real operators and detectors against the echo's construction and reference detectors",
  note="Exhaustive within the bounds; targets stand still during a chirp or symbol, ranges beyond the anti-aliasing filter and the absolute sign of Doppler shifts (receding targets of the radar channel appear approaching) are not claimed.",
  design="Echoes are delayed, rotated copies of the transmitted samples multiplied by plane wave responses; detectors are compared to explicit loops over cells. ~45 s.")

P("P26",
  title="Beamformers and stream codings steer and combine streams as configured",
  statement="For any antenna array, its pose, carrier and focus - given by angles, local or global coordinates or another device - conventional transmit beamforming radiates samples superimposing constructively in the focused direction and nowhere stronger, conventional reception returns a wave arriving from the focused direction unchanged and weights all others by the array factor. Null steering suppresses its null directions completely and otherwise maximizes the focused one. Capon beamforming passes the focused wave undistorted with the least collected power. Transmit-only and receive-only antennas count only where they belong, rates, carriers, delays, noise powers and block offsets are preserved, given samples and configured foci aren't modified, probing equals focusing each point, wrong numbers of foci or streams are rejected. Beamforming operators and device codings act alike; chains of codings apply their steps in order with consistent stream numbers after any registrations, replacements and removals. Sidelobe levels equal the powers at their directions.",
  over=["inputs", "configurations", "histories"],
  quant="five (nine) arrays x seven (25) poses of device and array x carriers x eight kinds of focus x five (seven) directions, each observed from 104 directions; all triples of focus and nulls; all pairs of wave and interferer; all chain reconfigurations up to depth 3 (4) for 4 to 12 streams",
  why="Mirrored beams, frames mixed up on rotated arrays or swapped antennas still radiate and only show in particular combinations of pose, direction and array, while the existing tests use unrotated arrays and compare powers loosely.",
  files=["hermespy/beamforming/beamformer.py", "hermespy/beamforming/conventional.py", "hermespy/beamforming/nullsteeringbeamformer.py", "hermespy/beamforming/capon.py", "hermespy/beamforming/operators.py", "hermespy/simulation/beamforming.py", "hermespy/simulation/evaluators/beamforming.py", "hermespy/core/precoding.py", "hermespy/hardware_loop/precoding.py"],
  mech=[("TransmitBeamformer.encode_streams, ReceiveBeamformer.decode_streams, ReceiveBeamformer.probe", "hermespy/beamforming/beamformer.py"), ("ConventionalBeamformer._encode, _decode", "hermespy/beamforming/conventional.py"), ("NullSteeringBeamformer._weights", "hermespy/beamforming/nullsteeringbeamformer.py"), ("CaponBeamformer._decode", "hermespy/beamforming/capon.py"), ("DeviceFocus.spherical_angles", "hermespy/simulation/beamforming.py"), ("TransmitSignalCoding.encode_streams, ReceiveSignalCoding.decode_streams", "hermespy/core/precoding.py"), ("SidelobeEvaluator.evaluate", "hermespy/simulation/evaluators/beamforming.py")],
  technique="exhaustive enumeration of arrays, poses, foci and coding histories executed on the real beamformers and codings against plane wave responses computed from the construction",
  note="Exhaustive within the bounds; ideal antennas and planar waves, nulls spanning the focused direction are excluded, recombination by the in-phase and quadrature combiner is not claimed.",
  design="The responses are computed from the element positions the array was built of and the rotation matrices of its poses, not by the library's own response functions. ~25 s.")

P("P27",
  title="Converters quantize and amplifiers distort as their characteristics state",
  statement="An analog-to-digital converter of b bits outputs, per stream and independently for real and imaginary parts, the nearest of its 2^b mid-riser or mid-tread levels after applying the configured fixed or automatic gain (by maximum or root-mean-square amplitude and backoff, independent of the input's scale), rescales only if asked to, and preserves carriers, rate, delay and input; without bits it only applies the gain. Reconfigured or recalled converters behave like newly created ones, rejected parameters change nothing. Amplifiers multiply by their linear gain and then follow the closed form of their model - linear, clipping, Rapp, Saleh, interpolated or (cross-term) memory polynomial -: phase-equivariant, causal, stream by stream and, without memory, sample by sample; polynomial coefficients are recovered from measurements. Phase shifters select the closest available phase, ramp generators sweep the bandwidth around the carrier in the slope's direction once per interval.",
  over=["inputs", "configurations", "histories"],
  quant="bits none and 1..6 (8) x 2 quantizers x 7 gains x 1..3 ports x grids of all levels and thresholds at 4 scales; converter, gain and amplifier histories up to depth 3 to 5; all one-hot and dense polynomial coefficients of memory and degree up to 3 (4); 45 polar inputs; 97 x 2 phases x 0..5 bits; chirps of both slopes",
  why="Off-by-half steps, clipped extreme levels, gains over mixed streams or memory across streams only affect particular samples near thresholds or particular configurations and otherwise look like more distortion.",
  files=["hermespy/simulation/rf/blocks/ad.py", "hermespy/simulation/rf/blocks/amps.py", "hermespy/simulation/rf/blocks/shift.py", "hermespy/simulation/rf/blocks/ramp.py"],
  mech=[("ADC._quantize", "hermespy/simulation/rf/blocks/ad.py"), ("AutomaticGainControl.estimate_gain", "hermespy/simulation/rf/blocks/ad.py"), ("ClippingPowerAmplifier.model, RappPowerAmplifier.model, SalehPowerAmplifier.model, CustomPowerAmplifier.model", "hermespy/simulation/rf/blocks/amps.py"), ("MemoryPolynomialPowerAmplifier, MemoryCTPolynomialPowerAmplifier", "hermespy/simulation/rf/blocks/amps.py"), ("Shift._propagate", "hermespy/simulation/rf/blocks/shift.py"), ("RampGenerator._chirp", "hermespy/simulation/rf/blocks/ramp.py")],
  technique="exhaustive enumeration of converter and amplifier configurations, reconfiguration histories and sample grids on the real blocks against level sets and closed forms",
  note="Exhaustive within the bounds; noise and oversampling filters belong to other properties, frame-wise conversion and the digital-to-analog converter's resolution are not claimed.",
  design="Inputs are grids with a point on, just below and above every level and threshold; polynomials are evaluated by their defining sums. ~15 s.")

P("P31",
  title="Hardware impairments of devices act once, as configured and reproducibly",
  statement="A simulated device adds hardware noise exactly once, to each operator's input, with the power of the currently configured noise level - fixed, thermal or relative to the power of a reference scaled by the latest channel sample -, no matter whether it was configured at construction, by setters, shorthands, grid dimensions or for a single reception. A noise realization is a fixed draw: repeatable, restorable, independent of the signal and scaling with the square root of its power; different receptions and antennas draw differently, the sequence only depends on the seed. Transmitted samples leak into the receive chain as configured - not at all, by the matrix of isolations or by convolution - and mutual coupling applies the configured matrices, identity by default; both reject signals of wrong dimensions. Phase noise never changes amplitudes. Self-interference, signal to interference ratios and sidelobe levels equal their definitions on the delivered signals.",
  over=["inputs", "configurations", "histories"],
  quant="six antenna arrays x noise levels x six ways of configuring level and four of configuring model; all histories of noise configurations and receptions up to depth 3; eight isolation and all coupling configurations x lengths x dense and sparse signals; phase noise components x shapes x seeds",
  why="Double or missing noise, stale models and misordered isolation matrices look like noise to a test comparing error rates; they only show when every way of configuring a device is compared to the noise-free samples plus the realization.",
  files=["hermespy/simulation/simulated_device.py", "hermespy/simulation/rf/noise/model.py", "hermespy/simulation/rf/noise/level.py", "hermespy/simulation/rf/noise/phase_noise.py", "hermespy/simulation/isolation/specific.py", "hermespy/simulation/isolation/selective.py", "hermespy/simulation/isolation/isolation.py", "hermespy/simulation/coupling/impedance.py", "hermespy/simulation/coupling/coupling.py", "hermespy/simulation/evaluators/interference.py", "hermespy/simulation/evaluators/beamforming.py"],
  mech=[("SimulatedDevice.realize_reception, SimulatedDevice._generate_receiver_input", "hermespy/simulation/simulated_device.py"), ("AWGNRealization.add_to", "hermespy/simulation/rf/noise/model.py"), ("NoiseLevel.get_power", "hermespy/simulation/rf/noise/level.py"), ("SpecificIsolation, SelectiveLeakage", "hermespy/simulation/isolation/specific.py"), ("ImpedanceCoupling", "hermespy/simulation/coupling/impedance.py")],
  technique="bounded exhaustive enumeration of impairment configurations and histories executed on the real devices against noise-free samples plus the realized impairment by definition",
  note="Exhaustive within the bounds; the distribution of noise beyond its power is not decided, the receive side of impedance coupling only where impedance and correlation are identical, leakage is not scaled by the device's power.",
  design="Every reception exposes its realization, so noisy inputs are compared exactly rather than statistically; a twin device at constant noise level gives the expected sequence of draws. ~15 s.")

P("P33",
  title="Modems deliver bits and packets end to end and frame their samples as stated",
  statement="Over ideal links and known invertible mixing matrices, every simplex, duplex or separate pair of modems recovers the transmitted bits and encoded bits in the order of their source, for any combination of waveform, error correction, stream coding, antennas and oversampling, before and after any sequence of reconfigurations. A transmission of a duration holds exactly the frames fitting into it, each at the samples and timestamps stated, the transmission's bits, symbols and signal describe the same frames, and its energies and powers match what the waveform states, over all messages. Receptions longer or shorter than the transmission, sparse signals and silence yield the frames they completely contain. Bit sources return the file's bits once and in order, packet links deliver the configured headers and payloads unchanged, and error evaluators count no errors over ideal links.",
  over=["inputs", "configurations", "histories"],
  quant="fifteen waveform configurations x all chains of up to two codings x stream codings of up to four antennas x oversampling factors x one to three frames x modem types; all truncations and extensions of receptions; all messages of short frames; all reconfiguration histories of depth 3",
  why="Frame counts, timestamps, padding and bit bookkeeping have to agree across modem, coding, precoding, waveform and device for every combination, the tests check single combinations and mostly a single frame.",
  files=["hermespy/modem/modem.py", "hermespy/modem/waveform.py", "hermespy/modem/bits_source.py", "hermespy/modem/precoding/symbol_precoding.py", "hermespy/modem/waveform_single_carrier.py", "hermespy/modem/frame_generator/frame_generator.py", "hermespy/modem/frame_generator/scapy.py"],
  mech=[("TransmittingModem._transmit", "hermespy/modem/modem.py"), ("ReceivingModem._receive", "hermespy/modem/modem.py"), ("SimplexLink, DuplexModem", "hermespy/modem/modem.py"), ("StreamBitsSource", "hermespy/modem/bits_source.py")],
  technique="bounded exhaustive enumeration of modem configurations, frame counts, messages and reconfiguration histories executed end to end against the transmitted bits and the frame layout by definition",
  note="Exhaustive within the bounds; links are noise-free, waveforms aliasing at their sampling rate or shaped by band-limited devices are excluded.",
  design="Known bit sources are transmitted, propagated over known mixing matrices and received; layouts, energies and powers are recomputed from samples. ~40 s.")

P("P34",
  title="Synchronization finds every frame at its first sample",
  statement="For each waveform with a pilot and its synchronization (correlation with arbitrary threshold, guard ratio and peak prominence, Schmidl-Cox, perfect trigger-based or none), every frame embedded into a reception at any position, with any gain and phase, any gaps between frames or none, and, where supported, a carrier frequency offset, is found at exactly its first sample, and nothing else is found; receptions too short, empty or silent contain no frame; links decode the frames' bits wherever they are. Thresholds, guard ratios and prominences act on the normalized correlation as stated and can be reconfigured.",
  over=["inputs", "configurations", "histories"],
  quant="every position up to two frame lengths x pairs and triples of frames at all gaps x gains, phases and frequency offsets x thresholds and guard ratios x oversampling factors x waveforms",
  why="Off-by-one frames, lost frames at the borders or doubled detections depend on the position and on the pilots' sidelobes; the tests synchronize to few random offsets.",
  files=["hermespy/modem/waveform_correlation_synchronization.py", "hermespy/modem/symbols.py", "hermespy/modem/waveforms/orthogonal/waveform.py", "hermespy/modem/waveforms/orthogonal/ofdm.py", "hermespy/modem/waveform.py"],
  mech=[("CorrelationSynchronization.synchronize", "hermespy/modem/waveform_correlation_synchronization.py"), ("SchmidlCoxSynchronization.synchronize", "hermespy/modem/waveforms/orthogonal/ofdm.py"), ("ReceivingModem._receive", "hermespy/modem/modem.py")],
  technique="bounded exhaustive enumeration of frame positions, gaps, gains and settings executed on the real synchronizations against the positions frames were placed at",
  note="Exhaustive within the bounds; placements whose correlation (recomputed directly) or Schmidl-Cox metric exceeds the threshold elsewhere by chance are skipped.",
  design="Frames are generated by the real waveforms and placed by the harness. ~30 s.")

P("P19",
  title="Ideal channel estimations know the channel applied to each symbol",
  statement="The ideal channel estimations of single- and multi-carrier waveforms state, for each symbol of a frame, exactly the gain between each pair of antennas by which this symbol is received when transmitted over the channel's most recent sample of the link from the configured transmitter to the configured receiver, at the time of the frame within the reception; samples of other links, directions, channels or earlier times don't matter. The symbols themselves are passed unchanged, and estimating before a channel was sampled is an error.",
  over=["inputs", "configurations", "histories"],
  quant="nine waveforms x five channels x up to 2x3 antennas x oversampling factors x frame starts up to 400 samples x two sampling times, each symbol of a frame transmitted alone; all histories of realizing and sampling this and other links up to depth 4",
  why="An estimate that is slightly misaligned, lacks a factor or belongs to another sample still equalizes the flat static channels of the tests.",
  files=["hermespy/simulation/modem/channel_estimation.py", "hermespy/channel/channel.py"],
  mech=[("IdealChannelEstimation._csi", "hermespy/simulation/modem/channel_estimation.py"), ("SingleCarrierIdealChannelEstimation, OFDMIdealChannelEstimation", "hermespy/simulation/modem/channel_estimation.py")],
  technique="bounded exhaustive enumeration of waveforms, channels, frame starts and sampling histories executed on the real estimations against transmitting each symbol alone over the same channel sample",
  note="Exhaustive within the bounds; single-carrier estimates over frequency-flat channels, multi-carrier ones over delays within the prefix, moving multipath within 2 % (words are averaged).",
  design="The oracle modulates a single symbol, propagates it and demodulates it. ~25 s.")

P("P28",
  title="Hardware loops generate, evaluate, record and show every drop once",
  statement="A hardware loop generates the configured number of drops at every combination of its dimensions' points, in the configured priority, each after configuring exactly that combination and running all pre-drop hooks, evaluates it with every evaluator in order, files the artifacts under that combination and runs all post-drop hooks with that drop. A failure in a hook, drop or evaluation skips the rest of this drop only (or is raised in debug mode), an interrupt ends the run after the current drop with the results so far. Recorded runs replay to the identical drops and evaluations, stored results equal the evaluated ones. Visualizations are prepared once, show each new sample until a newer one arrives, never an older or missing one, whatever the timing of their threads, which always terminate.",
  over=["configurations", "fault_sequences", "schedules", "histories"],
  quant="sweeps of up to three dimensions x up to three drops x priorities x up to two hooks and evaluators x a failure or interrupt at each stage of the first, second and last drop; recordings of up to nine drops; plotting histories of depth 4; all schedules of one or two visualization threads with up to three samples deviating at most 2 (4) times from running on, with early and late expiring waits",
  why="Whether a sample is lost between threads depends on timing, and order, filing and recovery only matter with several dimensions, hooks and failures at once; the tests run one short sweep without looking at its results.",
  files=["hermespy/hardware_loop/hardware_loop.py", "hermespy/hardware_loop/scenario.py", "hermespy/hardware_loop/physical_device_dummy.py", "hermespy/core/pipeline.py", "hermespy/core/scenario.py"],
  mech=[("HardwareLoop.run, replay, __run", "hermespy/hardware_loop/hardware_loop.py"), ("PlotThread.run, update_plot", "hermespy/hardware_loop/hardware_loop.py"), ("HardwareLoopPlot.update_plot", "hermespy/hardware_loop/hardware_loop.py")],
  technique="stateless exploration of all thread schedules of the real visualization threads under a controlled scheduler within a deviation bound, and exhaustive enumeration of loop configurations, failures and interrupts against a reference loop",
  note="Exhaustive within the bounds; threads are switched at their synchronization operations, the manual trigger confirmation is not exercised.",
  design="Locks and conditions of the module are replaced by scheduler-controlled ones, every other object is real; the event sequence of a run must equal the one of a nested loop. ~40 s.")

P("P36",
  title="Physical devices calibrate delays, leakage and antennas as configured",
  statement="A device calibrated for leakage subtracts from each reception exactly the convolution of the most recently transmitted samples with the calibrated responses at the calibrated delay, for any number and selection of ports, lengths of signals, delays and forms of signals; predictions state the same leakage. Delay calibrations shift receptions and transmissions by the nearest whole number of samples, whatever the sign or length, antenna calibrations weigh every port once and only what is uploaded. Leakages, delays and noise floors estimated by probing a device are those of the device, so that calibrated devices receive only echoes. A device and its calibrations refer to each other after any assignments and replacements, saved calibrations are restored with the same behaviour, the lowpass filter is applied to downloaded samples as configured, no given signal is modified and signals not matching the device are rejected.",
  over=["inputs", "configurations", "histories"],
  quant="up to 3 x 3 ports, all ordered selections of ports x responses of up to 5 taps x signals and receptions of 0 to 8 samples x leakage delays 0..9 and signal delays 0..4 (7) x dense and sparse; delays -9..12; estimates over 3 methods x probes x sequence lengths; all histories of assigning two calibrations to two devices up to depth 3 (4)",
  why="Indexing of selected ports, overlap windows, fractions of samples, doubly applied weights or stale references vanish for the single-port, aligned signals of the tests and look like bad hardware otherwise.",
  files=["hermespy/hardware_loop/physical_device.py", "hermespy/hardware_loop/physical_device_dummy.py", "hermespy/hardware_loop/calibration/leakage.py", "hermespy/hardware_loop/calibration/delay.py", "hermespy/hardware_loop/calibration/antennas.py"],
  mech=[("SelectiveLeakageCalibration.remove_leakage, predict_leakage, LeastSquaresEstimate, MMSEEstimate", "hermespy/hardware_loop/calibration/leakage.py"), ("DelayCalibration", "hermespy/hardware_loop/calibration/delay.py"), ("ScalarAntennaCalibration", "hermespy/hardware_loop/calibration/antennas.py"), ("PhysicalDevice.trigger_direct, process_input, save_calibration", "hermespy/hardware_loop/physical_device.py")],
  technique="bounded exhaustive enumeration of port selections, responses, signals, delays and assignment histories executed on the real calibrations and devices against convolutions by definition",
  note="Exhaustive within the bounds; the hardware is replaced by a loopback device of known impulse responses or the library's dummy device.",
  design="The loopback device convolves what is uploaded with known responses, so that what remains after calibration is known exactly. ~8 s.")

P("P37",
  title="Audio and radio hardware bindings hand over samples and settings as configured",
  statement="Any signal within the band of an audio device is played as real samples on exactly the configured channels of the configured cards and received back scaled by the cards' gains only, with as many extra samples as the maximum delay requires, from any number of playback and record channels. A software-defined radio transmits from and receives at exactly the selected ports with the current carrier, rate and gains, reconfigures its frontend only when they changed, starts each transmission from a reset stream, pads and crops consistently, shifts by its calibrated delay and delivers all collected samples. Lost calls are repeated until they succeed, persistent or remote failures are reported. Every device of a scenario is triggered exactly once, transmitted signals are left unmodified, and restored audio devices are configured identically.",
  over=["inputs", "configurations", "histories", "fault_sequences"],
  quant="1..3 x 1..3 channels x signal lengths 4..17 (64) x all bins of the band x oversampling factors x delays; all 225 ordered selections of up to 3 x 3 radio ports x paddings, scalings, delays and split receptions; all histories of changing settings and sending up to depth 5 (6); up to 11 lost or failing calls at each and each pair of remote procedures",
  why="Swapped channel counts, frequency offsets of a fraction of a bin, stale frontend settings and lost calls only affect particular lengths, port selections or timings, and hardware isn't available to tests.",
  files=["hermespy/hardware_loop/audio/device.py", "hermespy/hardware_loop/audio/scenario.py", "hermespy/hardware_loop/uhd/usrp.py", "hermespy/hardware_loop/physical_device.py", "hermespy/hardware_loop/scenario.py"],
  mech=[("AudioDevice._upload, trigger, _download", "hermespy/hardware_loop/audio/device.py"), ("AudioScenario._trigger_direct", "hermespy/hardware_loop/audio/scenario.py"), ("UsrpDevice._upload, _download, _configure_device, __rpc_call_wrapper", "hermespy/hardware_loop/uhd/usrp.py")],
  technique="bounded exhaustive enumeration of channels, signals, setting histories and remote call failures executed on the real bindings against loopback hardware of the same interface",
  note="Exhaustive within the bounds; sound card and radio server are replaced by loopbacks, antenna calibrations of radios are not claimed.",
  design="All bins of the band are transmitted one by one, which determines the linear map from transmitted to received samples. ~6 s.")

P("P38",
  title="Triggers, times and device states given reach every device and stage",
  statement="Devices sharing a trigger model start each drop at the same, devices of different models at independently chosen samples: not delayed, delayed by the configured number of samples or time, uniformly within the longest frame, or by the non-negative part of the configured normal distribution - reproducible by seed, convertible between sampling rates without gaining or losing samples, and used for the transmission, leakage and reception of the drop alike, so that receptions contain each transmission offset by precisely the difference of both triggers. Trigger models control exactly the devices assigned to them, after any assignments. A drop, an operation of a device or scenario, and each stage of a simulation campaign executes precisely its steps, each with the device states, time and trigger realizations given - for channels the time of the drop -, by default the initial state, never those of another device, time or earlier drop.",
  over=["histories", "configurations", "inputs"],
  quant="all single device operations x states x call forms and all pairs of them; all scenario operations of 1..3 devices x all combinations of 4 times x given triggers; all histories of drops up to depth 3 and of campaign stage re-executions up to depth 3 (4); all assignment histories up to depth 2 (3); all partitions of 1..3 (4) devices into trigger groups x all selections of 5 trigger models x 6 ways of triggering, all device subsets and orders; 0..16 (64) samples x 6 rates; conversions between 30 pairs of rates",
  why="Stages silently falling back to time zero, to their own instead of the given state, or to a trigger of another group only matter for moving or grouped devices; unit tests use a single device at rest.",
  files=["hermespy/simulation/simulated_device.py", "hermespy/simulation/scenario.py", "hermespy/simulation/simulation.py", "hermespy/core/scenario.py", "hermespy/core/device.py", "hermespy/core/state.py"],
  mech=[("TriggerModel and subclasses, TriggerRealization", "hermespy/simulation/simulated_device.py"), ("SimulationScenario.realize_triggers, propagate, _drop", "hermespy/simulation/scenario.py"), ("SimulationRunner", "hermespy/simulation/simulation.py")],
  technique="bounded exhaustive enumeration of operation and stage histories, trigger groups and states executed on the real code with recording operators, codings, couplings and channels against a model of the expected stages",
  note="Exhaustive within the bounds; the devices' x coordinates identify them and their y coordinates the time at which they were evaluated.",
  design="Every stage (operator, stream coding, coupling, channel sample) records the identity and time of the state it is given; the log must equal the steps of the operation. ~20 s.")

P("P39",
  title="Fading channels implement their standardized profiles, Rice factors and Doppler",
  statement="The 5G TDL and COST 259 channels have the delays, powers, Rice factors and line of sight Doppler of their specification, normalized to unit power and scaled to the configured delay spread, exponential channels decay exponentially with the configured one, and custom channels have the paths they are given, in order of delay. The channel state of every sample is exactly the documented sum of sinusoids over these paths: with the configured number of sinusoids, Doppler shifts, line of sight angle, gain and antenna correlations of both sides, at the time of the sample, so that samples at later times continue earlier ones. Settings have the same effect whether given at construction, changed later in any order between draws, or restored, and never alter realizations drawn before. Antenna correlations are the specified covariance matrices, invalid profiles and correlations are rejected.",
  over=["configurations", "histories", "inputs"],
  quant="17 models (4 custom, 3 COST 259, all TDL types at two delay spreads) x all settings and pairs (triples) of settings x construction, change and restoration x 5 links x times x bandwidths; 24 exponential profiles; all histories of changes, draws and seeding up to depth 2 (3), of a core up to depth 4 (5); 5 correlations x 1..5 antennas x both sides",
  why="Samples are random, so that tests observe averages at best: a wrong path power, a setting without effect or a restarted phase stays within any statistical tolerance.",
  files=["hermespy/channel/fading/fading.py", "hermespy/channel/fading/tdl.py", "hermespy/channel/fading/cost259.py", "hermespy/channel/fading/exponential.py", "hermespy/channel/fading/correlation.py"],
  mech=[("MultipathFadingSample.state", "hermespy/channel/fading/fading.py"), ("MultipathFadingChannel.num_sinusoids, _realize", "hermespy/channel/fading/fading.py"), ("TDL.__init__", "hermespy/channel/fading/tdl.py"), ("Cost259.__init__", "hermespy/channel/fading/cost259.py"), ("StandardAntennaCorrelation.sample_covariance", "hermespy/channel/fading/correlation.py")],
  technique="bounded exhaustive enumeration of models, settings and histories of changes and draws executed on the real channels against the tables and equations of their specification",
  note="Exhaustive within the bounds; the distribution of phases and angles is not decided, Doppler frequencies enter the documented equation as they are given, the line of sight path of the hilly terrain is taken from the documentation.",
  design="The reference evaluates the documented equation over the phases and angles a sample reports and the profile of the specification; delay spreads of the profiles validate the tables independently. ~35 s.")

P("P40",
  title="Executables keep their results apart and honour their output settings",
  statement="Each run asking for a new results directory gets an existing, empty directory of its own, dated and numbered below the experiment's results - also if any number of runs are started at the same time, some of them are killed at any point, or results, files or gaps of earlier runs exist - and never touches previous results; runs overwriting results get the base directory. Results directories which don't exist are rejected and leave the present one. Verbosity, console mode and style can be set by value or name, invalid ones are rejected without effect; the configured style applies to everything plotted within a run and nothing after it, even if the run fails. Failures are raised while debugging, otherwise printed unless suppressed, and declining to continue ends the program.",
  over=["schedules", "crash_points", "histories", "configurations"],
  quant="all interleavings of the file system calls of 2 runs (3 (unbounded) preemptions) and of 3 runs (2 (3) preemptions) over 7 previous contents; every crash point of either of two runs; all sequences of runs, files and removals up to depth 4 (5); all sequences of directories up to depth 3 (4) and pairs of settings; all 240 combinations of failure handling",
  why="Campaigns started by a job scheduler ask for their directories within milliseconds; whether two of them collide depends on the interleaving, which a test calling one after the other can't exhibit.",
  files=["hermespy/core/executable.py"],
  mech=[("Executable.default_results_dir", "hermespy/core/executable.py"), ("Executable.style_context, execute", "hermespy/core/executable.py"), ("Executable._handle_exception", "hermespy/core/executable.py")],
  technique="stateless exploration of all interleavings and crash points of the real code at its file system calls under a controlled scheduler, and exhaustive enumeration of histories of settings",
  note="Exhaustive within the bounds; file system calls are atomic, the style is shared by all executables of a process.",
  design="Every call into the file system made by the callers is a scheduling point; each schedule runs in a scratch working directory with real files. ~40 s.")
