p("P01", "Satellite numbers, satellite names and signal codes are bijective",
  "Every satellite of every supported constellation (its system and PRN) has exactly one internal satellite number and exactly one RINEX name, and converting between the three forms in any direction returns the original. Every RINEX 3/4 observation code of a supported constellation is parsed into a signal that prints back as the same code, keeps its identity when its observation type or attribute is exchanged, and has the carrier frequency of its constellation and band (GLONASS FDMA bands: of its channel); a tracking attribute the band does not have is rejected.",
  ["inputs"], "all systems x all PRNs in the numbering tables, all numbers, all observation codes",
  "the tests convert a handful of satellites; a collision or off-by-one in one range is invisible to them",
  ["gnss.py"], [("numbering ranges", "gnss.py:prn2sat/sat2prn"), ("names", "gnss.py:sat2id/id2sat"), ("signal codes", "gnss.py:rSigRnx")],
  ["return values"])
p("P02", "Time scale conversions are exact, consistent and invertible",
  "Calendar epochs, GPS, Galileo, BeiDou week/seconds and UTC all convert to and from the common time representation exactly for every instant of their range, differences and additions of times agree with integer arithmetic across day, week, leap-year and leap-second boundaries, and week (day) roll-over adjustment yields, of the time and its neighbours one week (day) earlier and later, the one nearest to the reference. (The second inserted as a leap second has no UTC epoch of its own.)",
  ["inputs"], "all days 1980-2099 and all leap-second boundaries; arbitrary week/tow pairs and offsets",
  "tests convert a few epochs; boundaries (leap years, leap seconds, negative offsets, rollovers) are unbounded in number",
  ["gnss.py"], [("calendar", "gnss.py:epoch2time/time2epoch"), ("system times", "gnss.py:gpst2time.."), ("leap seconds", "gnss.py:gpst2utc/utc2gpst")],
  ["return values"])
p("P03", "Broadcast ephemeris selection returns the right record or none",
  "For any collection of stored broadcast ephemerides, a request for a satellite at a time yields a record of that very satellite and navigation-message type whose reference time is within the validity limit of its constellation; with a requested issue of data the record has exactly that issue, without one it is the record nearest in time, and if no stored record qualifies nothing is returned.",
  ["histories", "inputs"], "all ephemeris collections (order, duplicates, mixed satellites, message types and issues) and all request times/issues",
  "tests query one satellite of one file at one time",
  ["ephemeris.py"], [("findeph", "ephemeris.py:findeph")], ["returned record"])
p("P04", "Compact SSR corrections reach the right satellite, signal and network",
  "Whatever sequence of Compact SSR messages is received, including lost, repeated, reordered and outdated ones, every stored orbit, clock, code-bias, phase-bias and accuracy correction carries exactly the value, issue and validity time that the provider sent for that satellite, signal and network, with values flagged unavailable stored as not available. A message whose mask issue differs from that of the mask in force changes no correction.",
  ["histories", "inputs"], "all sequences of mask/orbit/clock/bias/accuracy/combined messages with arbitrary masks, issues, networks and field values",
  "no test decodes Compact SSR at all; the property quantifies over message histories with losses and mask changes",
  ["cssrlib.py"], [("mask issue gating", "cssrlib.py:decode_cssr_*"), ("per-network store", "cssrlib.py:local_corr")],
  ["public correction store of the decoder"],
  note="Specification CSSR.tla: exhaustive for two overlapping masks of two issues (every order of mask, orbit, clock, bias and combined messages) and bound to the decoder by replaying TLC's behaviours and random multi-constellation histories built by an independent encoder.")
p("P05", "Compact SSR atmosphere corrections are stored and interpolated correctly",
  "For every network, the slant ionosphere and troposphere corrections kept after a STEC, gridded or combined atmosphere message are exactly the coefficients, residuals, qualities and grid counts sent for that network and the satellites selected by its satellite mask, and other networks are untouched. The correction computed at a position is the polynomial of the functional part plus the weighted residuals of the surrounding grid points, each term present only if the provider sent it.",
  ["histories", "inputs"], "all sequences of atmosphere messages over several networks, all availability flags, sizes and values",
  "no test decodes atmosphere messages",
  ["cssrlib.py"], [("STEC/GRID/ATMOS decoders", "cssrlib.py:decode_cssr_stec/grid/atmos"), ("interpolation", "cssrlib.py:get_trop/get_stec/find_grid_index")],
  ["local correction store", "interpolated values"])
p("P06", "Correction status and expiry follow what was received and when",
  "Corrections are reported complete only when the mask, orbit, clock and code-bias corrections and, for the selected network, the ionosphere, troposphere and (if required) phase-bias corrections have all been received. After the expiry check at a time, no orbit or clock correction older than its validity limit remains in force, and younger ones are unchanged.",
  ["histories"], "all sequences of messages and expiry checks at all ages",
  "no test exercises status or expiry",
  ["cssrlib.py"], [("chk_stat", "cssrlib.py:chk_stat"), ("check_validity", "cssrlib.py:check_validity")], ["status and correction store"])
p("P07", "Satellite positions use only a consistent set of corrections",
  "When corrections are given, a satellite gets a corrected position and clock only if orbit and clock corrections for that very satellite, each belonging to the mask issue in force or to the preceding one, and the broadcast ephemeris of the matching issue of data and message type are available; otherwise no position is given for it. The correction applied is exactly the stored one, and computing positions never alters the stored corrections or depends on how often it was computed before.",
  ["histories", "inputs"], "all combinations of stored corrections, issues, ephemerides, repeated calls",
  "tests never combine corrections with ephemerides; the gate has one branch per issue combination",
  ["ephemeris.py"], [("application gate", "ephemeris.py:satposs/satpos")], ["returned positions, clocks, health flags", "correction store before and after"])
p("P08", "QZSS L6 subframes are assembled from contiguous parts of one facility",
  "The Compact SSR bits handed over by the L6 message assembler are exactly the concatenated data parts, in order, of the messages received since the last subframe start, all from one facility; after a facility change, a bad preamble or before the first start nothing is assembled until the next start.",
  ["histories", "fault_sequences"], "all sequences of L6 messages: starts, continuations, facility changes, bad preambles",
  "no test feeds L6 messages",
  ["cssrlib.py"], [("decode_l6msg", "cssrlib.py:decode_l6msg")], ["assembled buffers"])
p("P09", "Galileo HAS messages are reconstructed from any sufficient set of pages",
  "Whichever distinct pages of a HAS message arrive, in whatever order and interleaved with duplicates, dummy pages, pages of unusable status and pages of other messages, a message is delivered as soon as enough distinct pages of it have been collected and never before, it equals the transmitted message byte for byte, and it is not delivered again while it is among the last ten delivered. (One message is collected at a time; pages of a message separated by more than twice its size in seconds are not combined.)",
  ["histories", "fault_sequences"], "all page orders, losses, duplicates and interleavings; all message contents and sizes",
  "no test decodes HAS pages",
  ["cssr_has.py"], [("page collection", "cssr_has.py:decode_cnav"), ("erasure decoding", "cssr_has.py:decode_has_page")], ["delivered messages"])
p("P10", "Galileo HAS corrections reach the right satellite and signal",
  "After any sequence of HAS messages, each stored orbit, clock and bias correction is exactly the transmitted one for that satellite and signal with the HAS sign, scale and multiplier conventions, unavailable values are stored as not available, and a message that refers to a mask other than the one held changes no correction.",
  ["histories", "inputs"], "all sequences of HAS messages with any blocks, masks, set ids and values",
  "no test decodes HAS",
  ["cssr_has.py", "cssrlib.py"], [("decode_cssr", "cssr_has.py:decode_cssr")], ["correction store"])
p("P11", "BDS PPP-B2b corrections reach the right satellite with matching issues",
  "After any sequence of B2b messages, every stored orbit, clock, code-bias and accuracy correction is the transmitted one for the satellite its slot denotes in the mask it refers to (slots of orbit and bias messages are absolute; clock and accuracy messages address the slots of the mask in force, type 6 from its start position in the mask), and messages of another mask issue or data issue change nothing.",
  ["histories", "inputs"], "all sequences of message types 1-7 with any masks and issues",
  "no test decodes B2b", ["cssr_bds.py"], [("decode_cssr", "cssr_bds.py")], ["correction store"])
p("P12", "SBAS L1 corrections follow mask, issue and time-out rules",
  "After any sequence of SBAS L1 messages, fast, long-term, integrity, degradation, covariance and ionospheric data are kept for exactly the satellites and grid points denoted by the mask issue in force, with the transmitted values, signs and reference times; messages of another mask issue change nothing; long-term corrections older than two minutes are withdrawn by the validity check; points indicated as not monitored or do-not-use are not used, and the ionospheric delay at a pierce point is interpolated from the usable points of its cell (none if fewer than three, or outside their triangle).",
  ["histories", "inputs"], "all sequences of SBAS messages with any mask issues and values",
  "no test decodes SBAS messages", ["sbas.py"], [("decoders", "sbas.py"), ("interpolation", "sbas.py:searchIGP, ionoSBAS")], ["correction store", "ionospheric delay"])
p("P13", "DFMC SBAS and SouthPAN corrections keep mask, issue and value intact",
  "After any sequence of SBAS L5 messages (also those carried by QZSS TVS or SouthPAN PVS), each satellite's orbit and clock correction, rates, reference time, issue of data, covariance and integrity index are exactly those transmitted for the satellite its slot or mask place denotes, integrity messages of another mask issue change nothing, a do-not-use indication is only ended by an explicit new value, and the two parts of an SBAS ephemeris are combined only when their issues agree.",
  ["histories", "inputs"], "all sequences of L5 messages with any mask issues and values",
  "no test decodes DFMC", ["sbas.py", "cssr_pvs.py"], [("decoders", "sbas.py:decode_cssr"), ("PVS", "cssr_pvs.py")], ["correction store"])
p("P14", "OSNMA accepts only navigation data authenticated by a verified key",
  "Galileo navigation data are declared authentic only if the tag was computed over exactly those data, satellite, time and counter with the key of the right time slot, and that key is linked by the one-way chain to a root key whose signature has been verified; any altered bit of data, tag, key, chain parameter or time leaves it unauthenticated.",
  ["histories", "fault_sequences"], "all page sequences, losses and single-field corruptions",
  "no test runs OSNMA", ["osnma.py"], [("state machine", "osnma.py")], ["status and verification results"])
p("P15", "QZNMA accepts only navigation data with a valid signature",
  "Navigation data of a satellite are declared authentic exactly when the received signature, over those data (of the satellite, type and issue announced, or sent in the slots after the signature) with the key number and random salt announced, verifies under the announced public key; incomplete, mixed-issue or altered data, altered or lost pieces of a signature, and unknown keys never lead to an authentication.",
  ["histories", "fault_sequences"], "all subframe/message sequences, losses, corruptions", "no test runs QZNMA",
  ["qznma.py"], [("state machine", "qznma.py")], ["verification results"])
p("P16", "Decoded navigation messages are emitted only when complete and consistent",
  "From any sequence of raw navigation subframes or pages, an ephemeris is emitted exactly when a part is received with which all parts from that satellite, with one common issue of data, are there (parts without an issue: sent in one frame, i.e. with consecutive time counts); every emitted field equals the transmitted one with the interface scale and sign, all epochs are in GPS time in the week next to the transmission time, and parts of different satellites or issues are never combined.",
  ["histories", "fault_sequences"], "all orders, losses, repetitions and issue changes of subframes of several satellites",
  "no test decodes raw navigation messages", ["rawnav.py"], [("per-message assembly", "rawnav.py")], ["emitted ephemerides"])
p("P17", "RTCM frames are accepted exactly when header, length and CRC are right",
  "A byte sequence (of six bytes or more) is accepted as an RTCM 3 frame if and only if it starts with the preamble, is as long as its length field says and its 24-bit CRC matches; any corruption of up to three bits is rejected, and the encoder produces only accepted frames.",
  ["inputs", "fault_sequences"], "all frame lengths, contents and corruptions", "no test uses the RTCM decoder",
  ["rtcm.py"], [("checksum", "rtcm.py:checksum")], ["return value"])
p("P18", "RTCM and IGS SSR corrections are stored per satellite as transmitted",
  "After any sequence of RTCM or IGS SSR messages, each orbit, clock, code-bias, phase-bias and accuracy correction stored is the latest transmitted one for that satellite and signal with its issue and time; encoding stored orbit, clock, combined, high-rate clock, accuracy, code-bias and phase-bias corrections (not available ones included) with a message the encoder supports and decoding it again gives the same corrections.",
  ["histories", "inputs"], "all sequences of SSR messages over all constellations, issues and values", "no test uses SSR",
  ["rtcm.py"], [("decode", "rtcm.py:rtcm"), ("encode", "rtcm.py:rtcme")], ["correction store", "encoded bits"])
p("P19", "RTCM MSM observations are attributed to the right satellite and signal",
  "For every satellite, signal and cell mask combination of an MSM message, each decoded pseudorange, phase, Doppler (negative range rate in cycles) and signal strength is the transmitted one of that satellite/signal cell, unavailable values give no observation (a GLONASS phase or Doppler needs the frequency channel), a decrease of a cell's lock-time indicator or its half-cycle flag is reported as loss of lock, and the epoch is the transmitted one in the week next to the reference.",
  ["inputs", "histories"], "all masks, constellations, message types 1-7 and field values incl. invalid marks", "no test decodes MSM",
  ["rtcm.py"], [("decode_msm", "rtcm.py")], ["decoded observations"])
p("P20", "RTCM ephemeris messages reproduce the transmitted orbital elements",
  "For each constellation, the ephemeris decoded from an RTCM message has every element equal to the transmitted integer times its scale (accuracy indices as transmitted), with the right satellite, and week and reference times completed to those next to the decoder's time.",
  ["inputs"], "all constellations and field values", "no test decodes RTCM ephemerides",
  ["rtcm.py"], [("decode eph", "rtcm.py")], ["decoded ephemerides"])
p("P21", "RINEX observations land in the requested signal of the right satellite",
  "From any RINEX observation file, each observation handed to the user for a satellite, type and signal is the number printed in that satellite's column for that code, absent fields count as missing, loss of lock is bit 0 of the loss-of-lock indicator, event records and unrequested systems are skipped, a missing requested signal is only replaced by an available one of the same type and band, rover and base epochs are paired only when equal within the tolerance (0.1 s), and nothing is handed over beyond the end of a file. Header values (position, antenna offset, equipment, first and last epoch, GLONASS channels) are those printed, and a file written from observations has a well-formed header for any number of signals, each value in its column, missing ones blank, and reads back as the same observations.",
  ["inputs", "histories"], "all header signal lists (any order, continuation lines), any missing fields, any epochs and requested signals", "tests read two fixed files",
  ["rinex.py"], [("decode_obsh/decode_obs", "rinex.py"), ("sync_obs", "rinex.py"), ("rnxenc.rnx_obs_header/rnx_obs_body", "rinex.py")], ["observation arrays", "written files"])
p("P22", "RINEX navigation records survive reading and writing",
  "Each navigation record of a RINEX file is read with every field in its place for its constellation and message type, and writing the stored ephemerides and reading them back yields the same ephemerides.",
  ["inputs"], "all constellations, message types, versions 3 and 4", "tests read one file",
  ["rinex.py"], [("decode_nav", "rinex.py"), ("rnxenc", "rinex.py")], ["ephemeris records"])
p("P23", "Precise orbit, clock, bias and antenna lookups use only valid intervals",
  "Precise positions and clocks are produced only inside the span of loaded epochs with valid data around the request and reproduce the tabulated values at the epochs, their standard deviations come from the tables and grow outside them, tables written and read again are the same, bias lookups return the value of the interval that contains the time or none, and antenna corrections are those valid at the time for that satellite or receiver (with the documented substitute band when a band is not calibrated).",
  ["inputs", "histories"], "all tables, gaps, request times and signals", "tests query a few fixed values",
  ["peph.py"], [("pephpos/pephclk", "peph.py"), ("biasdec", "peph.py"), ("atxdec", "peph.py")], ["return values"])
p("P24", "Ambiguity states are reset exactly on slip, outage or loss",
  "In the PPP/RTK filter a carrier-phase ambiguity keeps its estimate from epoch to epoch only while its satellite and signal are tracked at rover (and base) without cycle slip (loss-of-lock indicator or jump of the geometry-free combination, also in epochs with too few satellites for a position) and without exceeding the outage limit; otherwise it is cleared and re-initialised from the current observation, and fixing touches only eligible satellites (used in the epoch, locked long enough, above the elevation limit, of a fixable system).",
  ["histories"], "all histories of tracked sets, slips, outages, elevation", "tests process one fixed short data set",
  ["pppssr.py", "rtk.py"], [("udstate/qcedit/ddidx", "pppssr.py"), ("base_process", "rtk.py")], ["state vector and covariance"])
p("P25", "Integer least squares returns the true nearest integer vectors",
  "For every float ambiguity vector and positive definite covariance, the two integer candidates returned are the best and second best in the metric of the inverse covariance, in order, with their exact squared norms, and the reported decorrelation is an integer unimodular transformation.",
  ["inputs"], "all dimensions up to the bound and all rational covariance/float vectors of the generator", "one fixed numeric example is tested",
  ["mlambda.py"], [("msearch/reduction", "mlambda.py")], ["candidates and norms"])
p("P26", "SLAS corrections follow mask, issue and expiry rules",
  "After any sequence of QZSS SLAS messages, each satellite's pseudorange correction of each reference station is the transmitted one for the satellite that its place in the mask denotes, kept only with matching issues of mask and data; an unhealthy station's corrections are withdrawn, old ones expire, and the corrections offered to positioning are those of the nearest reference station only. Station positions and satellite health masks are those transmitted.",
  ["histories", "inputs"], "all sequences of SLAS messages", "no test decodes SLAS", ["dgps.py"], [("decode", "dgps.py")], ["correction store"])
p("P27", "Emergency warning messages decode to exactly the transmitted content",
  "Every disaster and crisis report (DC report) or common alert message decodes to the transmitted category, severity, area and hazard codes with their details; report times are those nearest to the reception, occurrence, arrival and onset times those the transmitted day and time denote next to the report; the pages of a Nankai Trough report are assembled per report; nothing of a former message remains, unknown codes are handled without failing, and messages with a bad format are rejected.",
  ["inputs", "histories"], "all message types and field values, all orders of messages and pages", "no test decodes EWS", ["ewss.py"], [("decode", "ewss.py")], ["decoded message"])
p("P28", "Decoder instances are independent of one another",
  "Two instances of any decoder, corrections store or estimator used in one process never influence each other: the result of a sequence of operations on one instance is the same whether or not another instance was used before or in between.",
  ["histories"], "all interleavings of operations on two instances of each public class", "tests use one instance per process",
  ["cssrlib.py", "osnma.py", "pppssr.py"], [("class-level and default-argument state", "osnma.py, pppssr.py")], ["observable results of each instance"])
p("P29", "Error-free observations lead to the true position and ambiguities",
  "In PPP, PPP-RTK and RTK the undifferenced residuals contain geometry, clock, troposphere, ionosphere, antenna, wind-up and bias (base and network) corrections exactly once, with the sign and reference signal of the service, only for usable satellites; the design matrix and covariance are those of the single differences; states get their configured process noise; ambiguities resolved to integers have the true differences within each group and the position follows; a filter fed with error-free observations keeps, or converges to, the true states, never reports a wrong fix, and reports no solution for epochs without one.",
  ["inputs", "histories"], "all services, signals, corrections, satellite sets and processing options of the generator", "tests process one short RTK data set",
  ["pppssr.py", "rtk.py", "ppprtk.py"], [("zdres/sdres/ddcov", "pppssr.py"), ("udstate/resamb_lambda/process", "pppssr.py"), ("base_process", "rtk.py")], ["residuals", "filter states", "solution status"])
p("P30", "Standalone and differential positions follow error-free pseudoranges",
  "In standalone and differential positioning the pseudorange residuals contain geometry, clocks, one tropospheric and one ionospheric delay (scaled to the signal, none in an ionosphere-free combination; the differential tropospheric delay with a reference station) of the usable satellites only; carrier smoothing is the mean of code minus phase over its window and starts anew after a gap, a missing value or a slip; single-frequency clocks are corrected by the group delay of the very satellite from the first epoch on; design matrix and covariance belong to those residuals; states move with their velocity and clock drift and get their configured process noise; and a filter fed with error-free observations has the true position, clock (whatever its jumps) and precision figures, and reports no solution for epochs with fewer than four usable satellites.",
  ["inputs", "histories"], "all constellations, signals, processing modes, smoothing histories, clock jumps and gaps of the generator", "tests process one short RINEX file in one mode",
  ["pntpos.py", "ephemeris.py"], [("zdres/csmooth/sdres/process", "pntpos.py"), ("group delay", "ephemeris.py:satposs")], ["residuals", "filter states", "solution status"])
p("P31", "RTCM station, network and regional atmosphere messages reach the user unchanged",
  "Every RTCM message about the reference station (position, antenna height, antenna and receiver descriptors, GLONASS biases, text), network residuals, and the regional atmosphere (grid definition, troposphere, ionosphere) sets exactly the entries it is about to the transmitted values, for every representable value, and leaves everything else - other stations' entries, satellites, constellations and grids - as it was; message types that are skipped or not scanned change nothing; and grid, troposphere and ionosphere messages written by the encoder and read back give the values to the nearest unit of the standard.",
  ["inputs", "histories"], "all station, residual, grid, troposphere and ionosphere messages and their orders", "no test decodes these messages",
  ["rtcm.py"], [("decode_sta_pos/decode_ant_desc/decode_glo_bias/decode_nrtk_residual", "rtcm.py"), ("decode_ssr_grid/decode_ssr_trop/decode_ssr_iono", "rtcm.py"), ("encode_ssr_grid/encode_ssr_trop/encode_ssr_iono", "rtcm.py")], ["decoder attributes", "local corrections"])
p("P32", "Wide-area ionospheric corrections are those of the user's area",
  "From any sequence of MADOCA-PPP coverage and ionospheric correction messages, a position is assigned to an area (rectangle or circle, at any longitude) that contains it, or to none if no area does; the corrections given for it are those last transmitted for that very region and area, for exactly its satellites, evaluated as the transmitted polynomial of the offset from the area's reference point, and not a number where a coefficient is not available; a message changes nothing but its own region's areas or its own area's corrections, and never the user's area.",
  ["inputs", "histories"], "all coverages (regions, areas, shapes, longitudes), coefficients and orders of messages and positions", "no test decodes these messages",
  ["cssr_mdc.py"], [("decode_mdc_stec_area/decode_mdc_stec_corr", "cssr_mdc.py"), ("find_grid_index/get_dpos/get_stec", "cssr_mdc.py")], ["area of the user", "slant delays"])

p("P33", "Satellite states follow the broadcast ephemeris or almanac",
  "The position computed from a Keplerian ephemeris (LNAV and CNAV forms, all systems, BeiDou geostationary satellites included) or almanac is, at any time within or across a week and for any eccentricity, harmonics and rates, the one of the interface documents; the velocity is the rate of change of that position; the clock is the polynomial at the time, plus the relativistic term where it is asked for; GLONASS positions follow the documented acceleration in both directions of time and do not depend on how the interval is divided; almanac files give every record once, with its own values and the week nearest to the present (or issue), and of several almanacs of a satellite the one nearest in time is used.",
  ["inputs"], "all orbital geometries, elements and times, orders of records in almanac files", "the tests compare single epochs",
  ["ephemeris.py"], [("eph2pos/eph2clk/eph2rel/eccentricAnomaly", "ephemeris.py"), ("geph2pos/geph2clk/glorbit/deq", "ephemeris.py"), ("loadyuma/loadXmlAlmanac/findalm/alm2pos", "ephemeris.py")], ["satellite state", "loaded almanacs"])

p("P34", "Tidal displacement of a station follows the solid-earth tide of sun and moon",
  "For any station and any directions and distances of sun and moon, the displacement is the sum of both bodies' in-phase tides of degrees two and three and their out-of-phase radial parts, plus the K1 term, less the permanent tide where asked, in the directions of the earth-fixed frame (poles and date line included); the sun and the moon are where they are known to be at equinoxes, solstices, apsides, eclipses and transits.",
  ["inputs"], "all geometries of station, sun and moon", "no test reaches the tide model",
  ["ppp.py", "peph.py"], [("solid_tide/tide_pl", "ppp.py"), ("sunmoonpos/eci2ecef", "ppp.py"), ("sunmoonpos_eci/sunmoonpos", "peph.py")], ["displacement"])

p("P35", "Coordinates, directions and atmosphere models are those documented",
  "For every station, direction, day and setting, geodetic and earth-centred coordinates convert into one another (degrees or radians, poles, any height), the local frame, azimuth, elevation and distance are those of the geometry up to the very zenith, a ray crosses the ionospheric layer where geometry has it, dilution of precision is that of the satellites above the mask, and the tropospheric zenith delays and mapping functions (Saastamoinen with Niell, Hopfield, SBAS) and the broadcast ionospheric delay are those of the documented models; no function changes its arguments.",
  ["inputs"], "all positions, directions, dates, heights, humidities and model coefficients of the generator", "the tests compare a handful of values of some models",
  ["gnss.py", "pntpos.py"], [("pos2ecef/ecef2pos/xyz2enu/satazel/geodist", "gnss.py"), ("ionppp/dops", "gnss.py"), ("tropmodel/tropmapf/mapfParam/atmosParam", "gnss.py"), ("ionKlobuchar", "pntpos.py")], ["returned values", "arguments"])

