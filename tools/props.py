# (id, title, statement, over, quantifier, why_tests_cant, files, [(mechanism, where)], not-applicable reason or None)
P = []


def p(i, title, stmt, over, q, why, files, mech, na=None):
    P.append(dict(id=i, title=title, statement=" ".join(stmt.split()), over=over, q=q, why=why, files=files, mech=mech, na=na))


IN, HI, CF, SC, FS, PR = "inputs", "histories", "configurations", "schedules", "fault_sequences", "programs"

# ------------------------------------------------------------------ time
p("C01", "UTC time comparisons form one total order",
  """For any two UTC times with normalised nanoseconds, <, <=, >, >=, == and != all agree with the lexicographic order of
  (seconds, nanoseconds): exactly one of <, == and > holds, <= is (< or ==), >= is (> or ==) and != is the negation of ==.""",
  [IN], "every pair of UTC times", "tests compare a handful of pairs; equal seconds with different nanoseconds is one corner of nine per operator",
  ["common/utctime.h", "common/utctime.cxx"], [("six comparison operators", "common/utctime.cxx UTCTime::operator<..!=")])
p("C02", "UTC time arithmetic is exact and keeps nanoseconds normalised",
  """Adding or subtracting a time, an integer number of seconds or a real number of seconds to a normalised UTC time gives the exact
  result (for a real operand: less than one nanosecond away, same time scale) with nanoseconds again in [0, 1e9); compound forms agree with
  the binary forms, also when a time is added to itself; constructing a time from seconds and nanoseconds or from non-negative seconds, and
  converting it to seconds, keep its value.""",
  [IN], "every normalised UTC time and operand", "tests sample a few sums; borrow/carry happen only for particular nanosecond combinations and signs",
  ["common/utctime.h", "common/utctime.cxx"], [("operator+,-,+=,-= and wrapNsec", "common/utctime.cxx")])
p("C03", "GNSS week/time-of-week conversions to UTC are exact",
  """Converting a GPS, Galileo or GLONASS (week, milliseconds of week) to UTC is exact to the nanosecond with each system's own epoch
  (GPS and Galileo share one; GLONASS runs 3 h ahead of UTC); the GPS week and time of week and the GLONASS week and day
  extracted from a UTC time invert that conversion. A GLONASS time of day combined with a reference time gives the
  time with that time of day closest to the reference, within 12 hours of it.""",
  [IN], "every week, millisecond of week, time of day and reference time", "tests use whole seconds only, so sub-second handling and day boundaries are never reached",
  ["common/utctime.cxx"], [("fromGPS/fromGalileo/fromGlonass/fromGlonassTimeOfDay, GpsWeek, GpsTow", "common/utctime.cxx")])
p("C04", "Quantised time comparisons share one 50 microsecond tolerance",
  """Comparing a quantised time with a plain time, in either argument order, treats times at most 50 us apart as equal and orders the
  rest: all six operators give the answer of that single three-way comparison. Quantising or assigning a time keeps it exactly.""",
  [IN], "every pair of times", "twelve operators by five regions; tests probe single offsets",
  ["common/quantized_time.h", "common/quantized_time.cxx", "common/defs.h"], [("twelve comparison operators", "common/quantized_time.cxx")])
# ------------------------------------------------------------------ containers
p("C05", "Circular buffer never reads or destroys dead elements",
  """The fixed-capacity circular buffer constructs every slot exactly once before it is read, assigned or destroyed and destroys exactly
  the live elements: popping at either end destroys the element removed, evicting on overflow destroys the evicted one, clearing and destruction destroy the rest once,
  and no operation assigns into or reads a slot that holds no element.""",
  [HI, IN], "every sequence of buffer operations and every element type", "tests use element types whose lifetime errors are invisible (ints, doubles)",
  ["common/circular_buffer.h"], [("push/pop/emplace/clear/destructor", "common/circular_buffer.h CircularBuffer")])
p("C06", "Circular buffer keeps order, bounds and wraparound",
  """The circular buffer behaves as a double-ended queue of bounded capacity: every operation moves only the end it names by one slot modulo the
  capacity, pushing onto a full buffer discards exactly the element at the opposite end, size/empty/full/front/back agree with the held elements, and
  iterators visit every element once from front to back including across the wrap point.""",
  [HI], "every sequence of operations at every head/tail position", "tests walk a few positions of a tiny buffer",
  ["common/circular_buffer.h"], [("head_/tail_ arithmetic and iterator", "common/circular_buffer.h CircularBuffer")])
# ------------------------------------------------------------------ logging
p("C07", "Serialisation round-trips byte for byte",
  """For every loggable type, deserialising reads back exactly the byte layout that serialising wrote: the same fields, in the same order, with the same
  widths, so that a value written and read back is unchanged and the stream position after reading equals the position after writing.""",
  [IN, PR], "every loggable type and value", "tests round-trip a few types",
  ["common/logging/serialize.h", "common/logging/serialize.cxx"], [("serialize/deserialize overloads", "common/logging")])
p("C08", "Log headers describe exactly the bytes logged",
  """The self-describing header written for a log stream lists, in order, exactly the fields and element types that each record's bytes contain: no field
  described but not written, written but not described, reordered, or given another type, count or size.""",
  [IN, PR], "every loggable type", "tests compare header text for a few types, never header against bytes",
  ["common/logging/log_format.cxx", "common/logging/log_format.h", "common/logging/serialize.cxx"], [("makeFormat/toJson overloads vs serialize overloads", "common/logging")])
p("C09", "Log readers and writers agree on type codes",
  """Every scalar type code the log writer can put into a stream header has the same element type and byte size in the analysis-side
  (Python) log reader, and the reader accepts no code under a type the writer does not mean.""",
  [PR], "every type code", "no test reads a C++-written log with the Python reader",
  ["common/logging/log_format.h", "common/logging/log_reader.py"], [("type code table", "common/logging/log_format.h; common/logging/log_reader.py")])
p("C10", "Log keys and stream names correspond one to one",
  """Every log key has exactly one stream name, no two keys share a name, and looking up a name yields the key that produced it, so a replayed log
  delivers each record under the key it was written with.""",
  [PR, IN], "every log key", "tests touch a few keys", ["common/logging/log_key.h", "common/logging"], [("key <-> name tables", "common/logging/log_key.h")])
p("C11", "The log writer's record protocol",
  """A record can be appended only to a stream that was initialised; each record is its time stamp followed by its
  arguments in order; every appended record is counted exactly once; and a stream is never initialised twice, so the manifest's record counts equal the number of records in the files.""",
  [HI, IN], "every sequence of initialise/log/close calls", "tests run one sequence",
  ["common/logging/log_writer.h", "common/logging/log_writer.cxx"], [("Logger/StreamWriter", "common/logging/log_writer.h")])
p("C12", "Log replay delivers records in global time order",
  """Replaying a log delivers, at every step, a record whose time stamp is no later than that of any other undelivered subscribed record;
  streams without a subscriber are skipped, each record goes to its own key's callback exactly once, and at most one callback exists per key.""",
  [HI, IN], "every set of streams and interleaving of their time stamps", "tests replay one interleaving",
  ["common/logging/log_reader.h", "common/logging/log_reader.cxx"], [("LogReader::read / getNext", "common/logging/log_reader.cxx")])
p("C13", "Logged records match the stream's declared types",
  """At every place that logs a record, the argument types are exactly the types the same program declared when it initialised the stream for
  that key (which the header describes), in the same order.""",
  [PR], "every logging call site", "call sites live in tools that no test runs", ["tools/post_process.cxx", "tools/gather_ephemeris.cxx", "sim/simulate.cxx"],
  [("initStream<T...>(KEY) / log(KEY, ...)", "tools, sim, core")])
# ------------------------------------------------------------------ ephemeris
p("C14", "GPS navigation message decoding follows the interface document",
  """Decoding GPS LNAV subframes 1, 2 and 3 gives every orbit and clock parameter the bits, signedness and scale factor that IS-GPS-200
  assigns to it, for every content of the message words; parameters a subframe does not carry keep their value, and the reference times of a released ephemeris are
  the decoded time of week (and of clock) in the decoded week.""",
  [IN], "every bit pattern of the ten words of each subframe", "tests decode one or two recorded messages, in which most bits never vary",
  ["common/ephemeris/gps.cxx", "common/ephemeris/gps.h", "common/ephemeris/bit_tools.h"], [("GPSEphemeris::frame1/2/3 bit fields", "common/ephemeris/gps.cxx")])
p("C15", "Galileo navigation message decoding follows the interface document",
  """Decoding Galileo I/NAV words 1 to 5 gives every orbit, clock, health and group-delay parameter the bits, signedness and scale factor that the
  Galileo OS SIS ICD assigns to it, for every content of the page; parameters a word does not carry keep their value, and the reference times of a released ephemeris are
  the decoded times in the week that lies within half a week of the time of transmission.""",
  [IN], "every bit pattern of each word type", "tests decode a few recorded pages",
  ["common/ephemeris/galileo.cxx", "common/ephemeris/galileo.h", "common/ephemeris/bit_tools.h"], [("GalileoEphemeris::parse1..5 bit fields", "common/ephemeris/galileo.cxx")])
p("C16", "GLONASS navigation string decoding follows the interface document",
  """Decoding GLONASS strings 1 to 5 gives every position, velocity, acceleration, clock and time parameter the bits, sign-magnitude
  interpretation and scale factor that the GLONASS ICD assigns to it, for every content of the string; parameters a string does not carry keep their value, and the times of a
  released ephemeris follow from the decoded four-year interval, day, and time of day (Moscow time).""",
  [IN], "every bit pattern of each string", "tests decode a few recorded strings",
  ["common/ephemeris/glonass.cxx", "common/ephemeris/glonass.h", "common/ephemeris/bit_tools.h"], [("GlonassEphemeris::frame1..5 bit fields", "common/ephemeris/glonass.cxx")])
p("C17", "An ephemeris is released only when complete and of one issue",
  """A navigation-message parser reports a usable ephemeris only after every required subframe of that satellite has been received
  and all parts carry the same issue of data (GLONASS: the same frame); parts of different issues never combine; messages that fail their checksum, page, preamble or satellite
  checks are not counted; after a GPS or Galileo release, and when a new GLONASS frame begins, the collection starts over; and a complete set of one issue is released.""",
  [HI, IN], "every order, repetition and mix of subframes", "tests feed the frames once, in order, from one issue",
  ["common/ephemeris/gps.cxx", "common/ephemeris/galileo.cxx", "common/ephemeris/glonass.cxx"], [("parse() completion logic", "common/ephemeris/*.cxx")])
p("C18", "Navigation parsers read only the bytes they were given",
  """Parsing a navigation message of a given length never reads outside that length: messages too short for the format are rejected before any word is
  read.""",
  [IN], "every message length and content", "tests pass complete messages only",
  ["common/ephemeris"], [("parse(buf, size)", "common/ephemeris/*.cxx")])
p("C19", "A released ephemeris is completely populated",
  """When a navigation-message parser releases an ephemeris, every stored parameter that users or the log consume has been set from received data
  or to a defined constant; nothing uninitialised is released.""",
  [HI], "every parameter of every constellation", "tests compare chosen fields",
  ["common/ephemeris"], [("constructors and parse()", "common/ephemeris/*.cxx")])
p("C20", "Navigation message checksums implement the published codes",
  """The 24-bit cyclic checksum equals CRC-24Q (polynomial 0x1864CFB, MSB first, zero initial value) for every buffer and length; the GLONASS check accepts exactly
  the strings whose eight Hamming sums need no data-bit correction; and the Galileo parser applies the first to exactly the page's 196 checked bits and compares it with the 24 transmitted ones.""",
  [IN], "every buffer, length and bit pattern", "tests check a few recorded messages",
  ["utils/crc.cxx", "common/ephemeris/galileo.cxx", "common/ephemeris/glonass.cxx"], [("crc24 table and update step, gloTest masks", "utils/crc.cxx"), ("page check in parse()", "common/ephemeris/galileo.cxx")])
# ------------------------------------------------------------------ satellites
p("C21", "A satellite's ephemeris list stays sorted, unique and its own",
  """Adding ephemerides to a satellite keeps its list in strictly increasing reference time: one of a listed time replaces that entry, any other is inserted, nothing else changes or is lost. An ephemeris of another
  satellite or constellation is never listed: it is refused with an error or ends in the fatal check. State queries use the listed ephemeris whose reference time is nearest, and report its error.""",
  [HI, IN], "every insertion order", "tests insert in a couple of orders",
  ["common/satellite/satellite.h", "common/satellite/satellite.cxx"], [("Satellite::addEph", "common/satellite/satellite.h")])
p("C22", "Stale ephemerides are refused and clock terms use the clock epoch",
  """Computing a Kepler satellite's position or clock at a time more than two hours from the ephemeris reference time ends in the fatal check, or in an error that leaves the satellite's state as it was; at any other time it succeeds,
  the clock offset being the broadcast polynomial in the time since the clock reference epoch less the relativistic correction, and the clock rate that polynomial's derivative. The GLONASS clock is its broadcast linear model. The
  state carries the time it was computed for.""",
  [IN], "every ephemeris and evaluation time", "toc differs from toe in no test message",
  ["common/satellite/satellite_state.cxx"], [("eph2Sat", "common/satellite/satellite_state.cxx")])
p("C23", "Satellite lookup is by constellation and id",
  """The satellite manager returns a satellite only for exactly the constellation and id requested; unknown satellites give an error, never another satellite, and every delivered ephemeris
  is listed with exactly the satellite it belongs to, which is known from then on; only when the manager is full does the satellite known longest make room.""",
  [IN, HI], "every constellation/id pair", "tests use few satellites", ["core/sat_manager.cxx", "core/sat_manager.h"], [("SatelliteManager", "core/sat_manager.cxx")])
# ------------------------------------------------------------------ estimator
p("C24", "No measurement timing can abort the estimator",
  """For every arrival time of a measurement the estimator either applies it, replays history, or reports an error: the filter's own time-order precondition can never fail because two parts
  of the estimator compare the same times with different tolerance, and the state history is never emptied.""",
  [IN, HI], "every arrival time, including sub-tolerance differences", "tests use well separated times",
  ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_estimator.h"], [("quantised comparisons in the estimator", "core/ekf/rtk_ekf_estimator.*")])
p("C25", "Each observation carries its constellation to the filter",
  """Every per-observation metadata record the estimator hands to the measurement model has all of its fields set from that observation and its satellite, so a
  Galileo or GLONASS observation is corrected with its own clock, not the GPS clock.""",
  [IN], "every mix of constellations", "tests use GPS only",
  ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_impl.cxx"], [("ObsMeta construction", "core/ekf/rtk_ekf_estimator.cxx handleObsMeas")])
p("C26", "Variable-size measurements stay within their fixed storage",
  """A measurement with a run-time number of rows is never written beyond its fixed storage, and nothing the filter computes or tests from it depends on memory outside the rows in use: more entries than the maximum are refused by
  the estimator before anything is written; unused rows and columns of residuals and Jacobians are zero; the finiteness checks, the gate and the results never see memory that was not written.""",
  [IN], "every number of observations and replicated states", "tests use few observations; uninitialised memory is usually harmless",
  ["core/ekf/rtk_ekf_estimator.h", "core/ekf/rtk_ekf_impl.cxx", "core/ekf/ekf_gen"], [("capacity checks", "core/ekf/rtk_ekf_estimator.h"), ("h<> implementations", "core/ekf/rtk_ekf_impl.cxx"), ("generated blocks and buffers", "core/ekf/ekf_gen")])
p("C27", "Jacobians cover every dependency of the filter's equations",
  """Every state component that a component of the filter's dynamics or predicted measurement depends on has its partial derivative written in the declared Jacobian, and a declared zero derivative is only
  where there is no dependency.""",
  [IN, PR], "every (equation row, state column) pair", "numerical Jacobian tests run at one random point for the blocks they list",
  ["core/ekf/rtk_ekf_impl.cxx", "core/ekf/rtk_ekf.yaml"], [("dynamics and h<> implementations", "core/ekf/rtk_ekf_impl.cxx")])
p("C28", "Rejected measurements leave the filter untouched",
  """A measurement the estimator rejects (older than the retained history, unknown satellite, invalid size) leaves the filter state, covariance, state history and measurement history exactly as
  they were, and an accepted one is inserted so that histories stay sorted by time.""",
  [IN, HI], "every rejected measurement", "tests check the error, not the absence of effects",
  ["core/ekf/rtk_ekf_estimator.cxx"], [("handle*Meas / addMeasurement", "core/ekf/rtk_ekf_estimator.cxx")])
p("C29", "Late measurements replay every affected measurement exactly once",
  """When a late measurement arrives the filter is rewound to the last state not after it and every retained measurement after that state, including the
  late one, is re-applied exactly once in time order, each through the update for its own type.""",
  [HI, SC], "every arrival order", "tests exercise one out-of-order arrival",
  ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_estimator.h"], [("rewind/replay in addMeasurement", "core/ekf/rtk_ekf_estimator.cxx")])
p("C30", "Composite filter state operations cover every component",
  """The generated filter state and error-state types apply identity initialisation, copying, finiteness checks, perturbation (boxplus) and difference (boxminus) to
  every declared component, each at its own index range, and the ranges tile the error state without gap or overlap.""",
  [PR, CF], "every component of every configured state", "tests perturb random states, missing components of isFinite or copy go unnoticed",
  ["core/ekf/ekf_gen/ekf_gen_state.py", "core/ekf/rtk_ekf.yaml"], [("generated State/ErrorState", "ekf_gen_state.py")])
# ------------------------------------------------------------------ factors
p("C31", "Factors tolerate any subset of requested Jacobians",
  """Evaluating any factor never writes through a Jacobian pointer the solver did not request: both a null Jacobian array and a null entry for any parameter block are honoured, and residuals do not depend on which Jacobians are requested.""",
  [IN, PR], "every factor and every subset of null Jacobian blocks", "tests request all Jacobians or none",
  ["models", "core/factors"], [("Evaluate(parameters, residuals, jacobians)", "models/*.cxx")])
p("C32", "Factors fill every residual and requested Jacobian entry",
  """When a factor's evaluation succeeds, every entry of the residual vector and of each requested Jacobian block has been written; nothing keeps stale or uninitialised solver memory.""",
  [IN, PR], "every factor, residual row and Jacobian cell", "numerical tests pass zeroed buffers",
  ["models", "core/factors"], [("Evaluate implementations", "models/*.cxx")])
p("C33", "IMU preintegration refuses bad samples before changing anything",
  """Integrating an IMU sample that is not finite or not later than the last one returns an error (or is refused) without changing the preintegrated state, covariance or time.""",
  [IN, HI], "every sample value and time", "tests feed good samples",
  ["models/imu_model.cxx"], [("ImuModel::integrate", "models/imu_model.cxx")])
# ------------------------------------------------------------------ ubx
p("C34", "UBX parser stays inside its buffers",
  """For every byte stream the UBX parser writes only inside its message buffer and its state machine never indexes past it, whatever length field the stream carries. A version report is read inside the message, whatever its bytes, the strings taken
  from it end inside their own storage, and nothing the parser reads is left uninitialised by its constructor.""",
  [IN, HI], "every byte stream", "the parser has no test", ["parsers/ubx/ubx.cxx", "parsers/ubx/ubx.h"], [("byte state machine", "parsers/ubx/ubx.cxx read_cb")])
p("C35", "UBX messages are delivered only after both checksum bytes match",
  """A UBX message reaches its subscribers only if both checksum bytes matched the Fletcher checksum over class, id, length and payload of that message, and after any rejected or delivered message the parser is back in its
  start state. A complete valid message, also one without payload, reaches each listener subscribed to its class and type exactly once, with its payload, however the bytes are split into reads; what the driver sends is a frame of the same form.""",
  [IN, HI], "every byte stream", "the parser has no test", ["parsers/ubx/ubx.cxx"], [("read_cb/decode_message", "parsers/ubx/ubx.cxx")])
# ------------------------------------------------------------------ errors
p("C36", "Errors are never silently discarded",
  """Every operation that can report failure through an error value has that value examined, propagated or explicitly handled by its caller; no caller drops it or replaces it unseen, and a function that itself returns an error
  looks at every failure on every path.""",
  [FS, PR], "every call site", "tests do not inject failures", ["common", "core", "models", "sim", "tools", "parsers", "utils"], [("Error return values", "common/error.h")])
p("C37", "Error and result types report failure faithfully",
  """An error value is ok exactly when it carries no message; a result holds either a value or an error and reports which; the propagation macros return the error to the caller exactly when there is one and
  otherwise continue; the fatal check terminates the process exactly when its condition is false.""",
  [IN, PR], "every error value and result", "tests cover one instantiation", ["common/error.h", "common/error_result.h", "common/check.cxx"], [("Error, ErrorResult, RETURN_IF_NOT_OK, check", "common")])
# ------------------------------------------------------------------ sim / misc
p("C38", "The simulator never calls an unset callback",
  """The simulator invokes a user callback only if one was registered, exactly when the sensor it belongs to delivered a sample, and with that sample. Each sensor delivers exactly when its own period has passed
  since its last sample and stamps what it delivers with the time asked for; observations carry their satellite's constellation and number. Every ephemeris is delivered once, oldest first, as soon as its time has
  come; an empty queue is not read.""",
  [CF], "every subset of registered callbacks, every sequence of sample times and every queue", "tests register all", ["sim"],
  [("Sim::step", "sim/sim.cxx"), ("sensors", "sim/sensors/imu.cxx, sim/sensors/gnss.cxx")])
p("C39", "PID output is saturated and free of integrator windup",
  """The PID controller's output is the sum of its proportional, integral and derivative terms, clipped to the configured symmetric limit. The integral accumulates the error over time, only when
  the controller is told to and has an integral gain; whenever the output is clipped, the integral term left behind is no larger than what the limit leaves for it. The derivative is the filtered rate of the
  measurement, from the previous measurement.""",
  [IN, HI], "every input and history", "no test drives it into saturation", ["sim/controllers/pid.cxx"], [("PID::run", "sim/controllers/pid.cxx")])
p("C40", "Collections, factors and states expose exactly their own parts",
  """A mixed-type collection refers to exactly the objects it was made from: element i is the i-th object and the base view lists every object exactly once, in that order, as its own base part.
  Every factor is connected to exactly the states it was given, in the order of its declaration, and its named members are those states. Every state type has its own identifier, and its declared dimension is the
  number of doubles its data pointer gives access to.""",
  [IN, PR], "every combination of member types; every factor and state type", "tests use one collection whose members all start with their base part",
  ["common/hetero_collection.h", "core/factors", "core/states"], [("HeteroCollection", "common/hetero_collection.h"), ("FactorTemplate and the factors", "core/factors/*.h"), ("StateTemplate and the states", "core/states/*.h")])
p("C41", "Required configuration is present or an error names it",
  """Loading a configuration value that is missing or of the wrong shape returns an error and leaves the destination untouched; a present value is converted completely.""",
  [CF, IN], "every key and node shape", "tests use a few files", ["utils/config.h", "utils/config.cxx"], [("get/load helpers", "utils/config.h")])
p("C42", "Integer least squares refuses inconsistent or indefinite problems",
  """The integer ambiguity solver stops with a fatal check, and writes no result, when the float solution is empty, when the covariance or the fixed solution does not have its size, when fewer than two candidates are
  asked for, or when the covariance is not positive definite (including one with NaN). It always factorises the covariance it was given. Each stage refuses operands whose sizes differ.""",
  [IN], "every input size and covariance", "tests give well-posed problems", ["core/solver/lambda.cxx"], [("lambda, LTDL, reduction, search", "core/solver/lambda.cxx")])
# ------------------------------------------------------------------ numeric, declined
N = "quantifies over real-valued numerical results (accuracy, optimality or definiteness); no sound static argument in reach bounds them, and no structural clause of it is decided elsewhere"
p("C80", "Lie group maps are mutually inverse",
  """The exponential and logarithm maps of the rotation and pose types (Quat, DQuat, SO3, SE3) invert each other for every element of their domain: exp(log(x)) is x for every rotation, including those near the identity, near half a turn
  and quaternions near minus the identity, and log(exp(v)) is v for rotations below half a turn. The left and right Jacobians that accompany them are the derivatives of the maps. Series used for small angles agree with the closed form
  where they are used.""",
  [IN], "every rotation, pose and tangent vector", "tests sample random elements, which are never near the identity or half a turn", ["common/math/quat.h", "common/math/dquat.h", "common/math/so3.h", "common/math/se3.h"],
  [("Quat::exp/log", "common/math/quat.h"), ("DQuat::exp/log", "common/math/dquat.h"), ("SO3::exp/log", "common/math/so3.h"), ("SE3::exp/log", "common/math/se3.h")])
p("C86", "Rotation and pose types act as one group",
  """Quat, DQuat, SO3 and SE3 represent the same group: product, inverse and identity obey the group laws, constructors and conversions from and to matrices, axis and angle, Euler angles and two vectors give the rotation or pose they name, rotating
  and transforming a vector actively and passively are inverse to each other and agree with the rotation matrix, a pose's translation is the one it was made from, the adjoint maps tangent vectors between frames, and the
  parameter Jacobians are the derivatives of the parameters.""",
  [IN], "every rotation, pose and vector", "tests sample random elements and not every constructor", ["common/math/quat.h", "common/math/dquat.h", "common/math/so3.h", "common/math/se3.h"],
  [("Quat", "common/math/quat.h"), ("DQuat", "common/math/dquat.h"), ("SO3", "common/math/so3.h"), ("SE3", "common/math/se3.h")])
p("C87", "Factor Jacobians are the derivatives of the residuals",
  """For every factor of the graph (pseudorange/Doppler, relative carrier phase, IMU preintegration, pose prior, clock dynamics and switches) and every parameter block, the analytic Jacobian the solver receives is the derivative of the factor's own residual with respect to that block, at every attitude, position, bias and information matrix; only the documented approximations are allowed (Doppler with the line of sight held and earth-rotation terms dropped, carrier phase with its earth-rotation term held).""",
  [IN, PR], "every parameter value, member value and direction", "finite differences are taken at a few points, often at the identity and with a diagonal covariance",
  ["models"], [("Evaluate implementations", "models/*.cxx")])
p("C88", "Factor residuals are the measurement models",
  """The residual each factor returns is its measurement model: predicted minus measured pseudorange and Doppler (geometry, atmosphere, satellite and receiver clocks, earth rotation) scaled by the switch, change of carrier phase between two epochs, IMU preintegration with bias correction relative to the bias of integration, the logarithm of the pose difference, and clock and switch dynamics, each weighted by the factor's square-root information.""",
  [IN, PR], "every parameter value and member value", "tests check residuals vanish at simulated truth, where several terms are zero",
  ["models"], [("Evaluate implementations", "models/*.cxx")])
p("C89", "IMU preintegration follows the IMU's motion model",
  """Every accepted IMU sample advances the preintegrated position, velocity and rotation by the motion model driven by the mean of the last and the new sample with the bias removed, the covariance by the linearised error dynamics with the input noise, and the bias Jacobian by the same dynamics; the sample and its time are kept. The end state predicted from a start state is the one at which the factor's residual is zero, and adding and subtracting error states of the preintegrated state are inverse operations.""",
  [HI, IN], "every sample, history and start state", "tests integrate a few trajectories with tolerances that hide small terms",
  ["models"], [("ImuModel::integrate", "models/imu_model.cxx"), ("ImuModel::computeEndState", "models/imu_model.cxx"), ("ImuState", "models/imu_state.cxx")])
p("C81", "Integer ambiguity search returns the best candidates", "The integer least squares search returns the requested number of integer vectors with the smallest residual norms, in increasing order.",
  [IN], "every float solution and covariance", "tests compare a few problems", ["core/solver/lambda.cxx"], [("LAMBDA reduction and search", "core/solver/lambda.cxx")], N)
p("C82", "Satellite states follow the broadcast orbit model",
  """A Kepler satellite's position is that of the interface document's equations for its ephemeris at the time asked for, and its velocity is the derivative of that position; the eccentric anomaly solves Kepler's equation to
  convergence. A GLONASS satellite's motion follows the interface document's equations of motion, integrated by fourth-order Runge-Kutta steps of at most a minute from the ephemeris (or the state last computed) to exactly the time
  asked for, forwards or backwards.""",
  [IN], "every ephemeris and time", "tests compare recorded epochs, where small terms vanish in the tolerance",
  ["common/satellite/satellite_state.cxx", "common/math/rk4.h"], [("eph2Sat", "common/satellite/satellite_state.cxx"), ("glonassOrbit", "common/satellite/satellite_state.cxx"), ("RK4", "common/math/rk4.h")])
p("C83", "Geodetic conversions round-trip",
  """Converting between earth-centred, geodetic and local north-east-down coordinates and back returns the starting point to sub-millimetre precision outside the earth's core, at every latitude, longitude and height including the poles:
  geodetic to earth-centred is the WGS-84 ellipsoid's formula, the iteration of the way back stops only at its solution, and the local frame's axes point north, east and down at its origin.""",
  [IN], "every point", "tests sample points", ["utils/wgs84.cxx", "utils/wgs84.h"], [("ecef2lla / lla2ecef", "utils/wgs84.cxx"), ("q_e2n, dq_ecef2ned and the NED conversions", "utils/wgs84.cxx")])
p("C84", "Filter covariance stays symmetric positive definite", "After any sequence of predictions and updates with finite inputs the filter covariance is symmetric and positive definite.",
  [HI, IN], "every measurement history", "tests run short histories", ["core/ekf"], [("predict/update", "ekf_gen")], N)
p("C85", "Sparse covariance propagation equals the dense product",
  """The filter code the generator writes computes, block by block, exactly what the dense matrices do, for every state, Jacobian and number of replicated states and observations: the predicted state and covariance, the gain, the correction, the
  gate and the corrected covariance of every measurement. A gated, empty or disabled measurement changes nothing. The update passes the negated residual and the model's Jacobian and returns the residual, or the error.""",
  [IN, CF], "every matrix, every number of replicated states and observations up to their capacity, every measurement of both configurations", "generated tests compare random matrices at a few sizes with tolerances",
  ["core/ekf/ekf_gen", "core/ekf/rtk_ekf.yaml"], [("predict, doUpdate, update and dense forms", "core/ekf/ekf_gen/ekf_gen_templates.py"), ("symbolic sparse products", "core/ekf/ekf_gen/ekf_gen_matrix_manip.py")])
p("C90", "Generated filter source depends on nothing but its configuration",
  """Running the filter generator twice on the same configuration writes the same source: the order of arguments, declarations, sums and statements never follows Python's hash order, and no time, random number, object identity, environment variable
  or directory order reaches the output. A rebuild of the same tree is the same filter.""",
  [CF], "every configuration, every run of the generator, every hash seed", "tests compile the output of a single run",
  ["core/ekf/ekf_gen"], [("generator and symbolic algebra", "core/ekf/ekf_gen/ekf_gen.py"), ("argument lists", "core/ekf/ekf_gen/ekf_gen_matrix_manip.py")])
p("C91", "Filter residuals are measurement minus predicted measurement",
  """The filter's residual of every measurement model is the measurement minus what the state predicts: antenna position and velocity in earth-centred coordinates for a position; range with earth rotation, atmosphere and the clock of that
  observation's constellation, and Doppler, for observations; single differences one by one for fix and hold. Rows beyond those in use stay zero, and the filter's rates of attitude, position, biases, clocks and constants are those of its model.""",
  [IN], "every state, input and number of observations", "tests check innovations on GPS samples with tolerances",
  ["core/ekf/rtk_ekf_impl.cxx"], [("h<> implementations and dynamics", "core/ekf/rtk_ekf_impl.cxx")])
p("C92", "Look angles and atmospheric delays follow the published models",
  """Azimuth and elevation are the direction of the satellite in the receiver's local level frame. The tropospheric delay is Saastamoinen's model over the standard atmosphere, zero outside its validity; the ionospheric delay is Klobuchar's model
  with all of its limits; the correction applied to an observation is these at the receiver's geodetic position and the satellite's look angles, for every place, time and satellite.""",
  [IN], "every receiver, satellite and time", "tests compare a handful of GPS points with tolerances",
  ["common/satellite/atm_correction.cxx", "common/satellite/azel.cxx"], [("atmospheric delays", "common/satellite/atm_correction.cxx"), ("look angles", "common/satellite/azel.cxx")])
p("C93", "Satellites are placed where they were when the signal left them",
  """Wherever a satellite is looked up for an observation, its state is that of the time of reception less the time its signal travelled, including the turn of the earth, to within a millimetre of satellite motion; the atmosphere is evaluated at the
  time and place of reception for that state, and the simulated receiver's pseudorange and range rate are exactly the ones this geometry, the atmosphere and the clocks imply.""",
  [IN], "every satellite orbit, receiver and time", "tests compare ranges for a few epochs with tolerances of metres",
  ["common/satellite/satellite_cache.cxx", "models/prange_model.cxx", "models/relative_carrier_phase_model.cxx", "sim/sensors/gnss.cxx"],
  [("filter cache", "common/satellite/satellite_cache.cxx"), ("factors", "models/prange_model.cxx"), ("simulated receiver", "sim/sensors/gnss.cxx")])
